// C23 failing allocations.
#include "grids.hpp"
#include <integratorxx/batch/spherical_micro_batcher.hpp>
#include <integratorxx/quadratures/primitive.hpp>
#include <integratorxx/util/bound_transform.hpp>
using US = UnprunedSphericalGridSpecification; using PS = PrunedSphericalGridSpecification;
using Batcher = SphericalMicroBatcher<VP, VW>;
using GC1 = GaussChebyshev1<double, double>; using GC2 = GaussChebyshev2<double, double>; using GC2M = GaussChebyshev2Modified<double, double>; using GC3 = GaussChebyshev3<double, double>;
using GLE = GaussLegendre<double, double>; using GLO = GaussLobatto<double, double>; using UTR = UniformTrapezoid<double, double>;
template <class T> struct is_cart : std::false_type {}; template <> struct is_cart<P3> : std::true_type {};

// value dumps (bit patterns as doubles)
static void dump(std::vector<double>& o, double x) { o.push_back(x); }
static void dump(std::vector<double>& o, size_t x) { o.push_back((double)x); }
static void dump(std::vector<double>& o, const P3& x) { o.insert(o.end(), x.begin(), x.end()); }
template <class T> static void dump(std::vector<double>& o, const std::vector<T>& v) { dump(o, v.size()); for (auto& x : v) dump(o, x); }
template <class Q> static void dump_q(std::vector<double>& o, const Q& q) { dump(o, q.points()); dump(o, q.weights()); }
static void dump_multiset(std::vector<double>& o, const VP& p, const VW& w) {
  std::vector<std::array<double, 4>> v; for (size_t i = 0; i < p.size(); ++i) v.push_back({p[i][0], p[i][1], p[i][2], w[i]});
  std::sort(v.begin(), v.end()); dump(o, v.size()); for (auto& x : v) o.insert(o.end(), x.begin(), x.end());
}
// what a user of a batcher sees, in an order of the points that is not promised
template <class B> static void dump_batches(std::vector<double>& o, const B& x) {
  dump_multiset(o, x.points(), x.weights()); dump(o, x.max_batch_size()); dump(o, x.nbatches()); dump(o, x.npts());
  std::vector<std::vector<double>> all; for (size_t i = 0; i < x.nbatches(); ++i) { auto [lo, up, p, w] = x.at(i); std::vector<double> v; dump(v, lo); dump(v, up); dump_multiset(v, p, w); all.push_back(v); }
  std::sort(all.begin(), all.end()); for (auto& v : all) o.insert(o.end(), v.begin(), v.end());
}
static void dump_traits(std::vector<double>& o, int k, const RadialTraits& t) { Rad r = radial(k, t); dump(o, r.r); dump(o, r.w); }
template <class A> static void dump_part(std::vector<double>& o, const RadialGridPartition<A>& p) {
  size_t n = 0; for (auto it = p.cbegin(); it != p.cend(); ++it) { auto v = *it; dump(o, v.first.first); dump(o, v.first.second); dump(o, v.second.points()); dump(o, v.second.weights()); if (++n > 1000) break; }
}
static int kind_of(RadialQuad q) { for (int k = 0; k < 4; ++k) if (RQ[k] == q) return k; return -1; }
static void dump_spec(std::vector<double>& o, const PS& s) {
  dump(o, (size_t)s.radial_quad); if (s.radial_traits && kind_of(s.radial_quad) >= 0) { std::string e; try { dump_traits(o, kind_of(s.radial_quad), *s.radial_traits); } catch (...) { o.push_back(-1); } }
  for (auto& g : s.pruning_regions) { dump(o, g.idx_st); dump(o, g.idx_en); dump(o, (size_t)g.angular_quad); dump(o, g.angular_size); }
}

// four of the sixteen (radial, angular) pairs, to bound the compile time
template <class F> static void with_pair(int k, F&& f) { switch (k) { case 0: f(tag<BKQ>{}, tag<WOQ>{}); break; case 1: f(tag<TAQ>{}, tag<ABQ>{}); break; case 2: f(tag<MHQ>{}, tag<DEQ>{}); break; default: f(tag<MKQ>{}, tag<LLQ>{}); } }
static int partner(int k) { return 3 - k; }
template <class F> static void prim_of(int k, size_t n, Rng& r, F&& f) {
  switch (k) {
    case 0: { GC1 q(n); f(q, fmt("GaussChebyshev1 %zu", n)); break; } case 1: { GC2 q(n); f(q, fmt("GaussChebyshev2 %zu", n)); break; } case 2: { GC2M q(n); f(q, fmt("GaussChebyshev2Modified %zu", n)); break; }
    case 3: { GC3 q(n); f(q, fmt("GaussChebyshev3 %zu", n)); break; } case 4: { GLE q(n + !n); f(q, fmt("GaussLegendre %zu", n + !n)); break; } case 5: { if (n < 2) n = 2; GLO q(n); f(q, fmt("GaussLobatto %zu", n)); break; }
    default: { if (n < 2) n = 2; double lo = r.uni(-5, 5), up = lo + r.uni(0.1, 9); UTR q(n, lo, up); f(q, fmt("UniformTrapezoid %zu %.17g %.17g", n, lo, up)); break; }
  }
}
struct ConcatOp { std::array<double, 4> operator()(const double& r, const P3& a) const { return {r, a[0], a[1], a[2]}; } std::array<double, 2> operator()(const double& a, const double& b) const { return {a, b}; } };
// ---------------------------------------------------------------------- C23
// make() performs one request; the k-th allocation inside it fails, for every k
// until none does. show() records the outcome, world() everything else alive.
template <class Make, class Show, class World> static void oom(Ctx& c, const std::string& what, Make&& make, Show&& show, World&& world) {
  std::vector<double> base; { auto o = make(); show(base, o); }
  std::vector<double> before; world(before);
  long long k = 0, step = 1; size_t faults = 0; const long long cap = c.thorough ? 3000 : 400;
  for (;; k += step) {
    if (k >= cap) { step = step * 5 / 4 + 1; if (k > 2000000) { c.violation("endless", what); return; } }
    std::vector<double> got; got.reserve(base.size() + 16); std::vector<double> after; after.reserve(before.size() + 16);
    const long long live = vm::live_blocks, bytes = vm::live_bytes; int oc = 0; const char* e = nullptr; std::string ename;
    vm::failed = 0;
    try {
      vm::fail_at = k; auto o = make(); vm::fail_at = -1; show(got, o);
    } catch (const std::bad_alloc&) { vm::fail_at = -1; oc = 1; }
    catch (const std::exception& x) { vm::fail_at = -1; oc = 2; ename = x.what(); }
    catch (...) { vm::fail_at = -1; oc = 3; }
    (void)e;
    const bool fault = vm::failed > 0; ename = std::string(ename.begin(), ename.end());
    const long long left = vm::live_blocks - live - (ename.capacity() > 15 ? 1 : 0), leftb = vm::live_bytes - bytes;
    if (fault) { ++faults; c.stat("allocations made to fail"); c.stat("failed in " + what.substr(0, what.find(' '))); }
    c.okf(oc <= 1, "exception:" + what.substr(0, what.find(' ')), [&] { return what + fmt(": allocation %lld fails, request throws ", k) + (oc == 2 ? ename : "a non-std object"); });
    c.okf(oc != 1 || fault, "bad_alloc without fault", [&] { return what; });
    c.okf(left == 0, "leak:" + what.substr(0, what.find(' ')), [&] { return what + fmt(": allocation %lld fails, %lld blocks (%lld bytes) left behind", k, left, leftb); });
    world(after);
    c.okf(same_vec(before, after), "bystander:" + what.substr(0, what.find(' ')), [&] { return what + fmt(": allocation %lld fails, an object that existed before has changed", k); });
    if (oc == 0) c.okf(same_vec(base, got), "result:" + what.substr(0, what.find(' ')), [&] { return what + fmt(": allocation %lld fails, the request returns something else", k); });
    if (!fault) { c.okf(oc == 0, "request:" + what.substr(0, what.find(' ')), [&] { return what + ": fails without a fault"; }); break; }
    // the same request succeeds afterwards
    if (k % 7 == 0 || k < 10) { int ok = 0; try { auto o = make(); std::vector<double> again; show(again, o); ok = same_vec(base, again); } catch (...) {} c.okf(ok, "retry:" + what.substr(0, what.find(' ')), [&] { return what + fmt(": the request fails again after allocation %lld failed once", k); }); std::vector<double> w2; world(w2); c.okf(same_vec(before, w2), "bystander:" + what.substr(0, what.find(' ')), [&] { return what + " (retry)"; }); }
  }
  if (faults) c.nontriv(what);
  c.stat("requests exhausted");
}
static void c23(Ctx& c) {
  const int N = c.thorough ? 4000 : 1500;
  for (int i = 0; i < N; ++i) if (c.begin(fmt("request #%d", i))) c.guard([&] {
    Rng r = c.case_rng(); const int kind = i % 26; int k = (int)r.below(4), a = partner(k); size_t n = 1 + r.below(14); double R = r.logu(0.1, 8);
    auto t = traits_of(k, n, R); size_t z = pick_ang(r, a, 60), z2 = pick_ang(r, a, 60); size_t cut = n > 1 ? 1 + r.below(n - 1) : 0; P3 cen = rand_center(r);
    std::vector<PruningRegion> reg = {{0, n, AQ[a], z}}; if (cut) reg = {{0, cut, AQ[a], z}, {cut, n, AQ[a], z2}};
    US us(RQ[k], *t, AQ[a], z); PS ps(RQ[k], *t, reg);
    with_pair(k, [&](auto tr, auto ta) {
      using RT = typename decltype(tr)::type; using AT = typename decltype(ta)::type; using SQ = SphericalQuadrature<RT, AT>; using PQ = PrunedSphericalQuadrature<RT, AT>; using Part = RadialGridPartition<AT>;
      RT rq(*t); AT aq(z), aq2(z2); Part part; part.add_quad(rq, 0, aq); if (cut) part.add_quad(rq, cut, aq2); Part open(part); part.finalize(rq);
      SQ sq(rq, aq, cen); PQ pq(rq, part, cen); std::shared_ptr<Base> shared = pq.clone(); std::shared_ptr<Base> mine = sq.clone();
      Batcher bat(8, shared->clone()); PS target(RQ[(k + 1) % 4], *traits_of((k + 1) % 4, 3, 2.0), std::vector<PruningRegion>{{0, 3, AQ[a], z}});
      auto world = [&](std::vector<double>& o) {
        dump_q(o, rq); dump_q(o, aq); dump_q(o, sq); dump_q(o, pq); dump_q(o, *shared); dump_multiset(o, mine->points(), mine->weights()); dump(o, mine->center()); dump_part(o, part); dump_spec(o, ps); dump_traits(o, k, *t); dump_traits(o, k, *us.radial_traits); dump(o, us.angular_size); dump_q(o, bat.quadrature()); dump(o, bat.nbatches());
      };
      auto q = [](std::vector<double>& o, const auto& x) { dump_q(o, x); }; auto pq_ = [](std::vector<double>& o, const auto& x) { dump_q(o, *x); dump(o, x->npts()); };
      std::string w = fmt("%s n=%zu R=%.17g x %s %zu,%zu cut %zu", RN[k], n, R, AN[a], z, z2, cut);
      switch (kind) {
        case 0: oom(c, "radial-class " + w, [&] { return RT(*t); }, q, world); break;
        case 1: oom(c, "radial-factory " + w, [&] { return RadialFactory::generate(RQ[k], *t); }, pq_, world); break;
        case 2: oom(c, "angular-class " + w, [&] { return AT(z); }, q, world); break;
        case 3: oom(c, "angular-factory " + w, [&] { return S2Factory::generate(AQ[a], z); }, pq_, world); break;
        case 4: oom(c, "unpruned-factory " + w, [&] { return SphericalGridFactory::generate_unpruned_grid(RQ[k], *t, AQ[a], z); }, pq_, world); break;
        case 5: oom(c, "pruned-factory " + w, [&] { return SphericalGridFactory::generate_pruned_grid(RQ[k], *t, reg); }, pq_, world); break;
        case 6: oom(c, "unpruned-specification " + w, [&] { return SphericalGridFactory::generate_grid(us); }, pq_, world); break;
        case 7: oom(c, "pruned-specification " + w, [&] { return SphericalGridFactory::generate_grid(ps); }, pq_, world); break;
        case 8: { auto s = std::array<PruningScheme, 3>{PruningScheme::Unpruned, PruningScheme::Robust, PruningScheme::Treutler}[r.below(3)]; oom(c, fmt("scheme-%d ", (int)s) + w, [&] { return create_pruned_spec(s, us); }, dump_spec, world); break; }
        case 9: oom(c, "specification-copy " + w, [&] { return PS(ps); }, dump_spec, world); break;
        case 10: { // the target keeps its old value when the assignment fails
          PS keep(target);
          oom(c, "specification-assignment " + w, [&] {
            try { target = ps; } catch (const std::bad_alloc&) { if (!(target == keep)) { target = keep; throw std::logic_error("assignment left a half-assigned specification"); } throw; }
            vm::fail_at = -1; PS got(target); target = keep; return got; }, dump_spec, world);
          break; }
        case 11: oom(c, "traits-clone " + w, [&] { return t->clone(); }, [&](std::vector<double>& o, const auto& x) { dump_traits(o, k, *x); }, world); break;
        case 12: oom(c, "make-traits " + w, [&] { return make_radial_traits(RQ[k], n, R); }, [&](std::vector<double>& o, const auto& x) { dump_traits(o, k, *x); }, world); break;
        case 13: oom(c, "spherical-class " + w, [&] { return SQ(rq, aq, cen); }, q, world); break;
        case 14: oom(c, "pruned-class " + w, [&] { return PQ(rq, part, cen); }, q, world); break;
        case 15: oom(c, "partition-build " + w, [&] { Part p; p.add_quad(rq, 0, aq); if (cut) p.add_quad(rq, cut, aq2); p.finalize(rq); return p; }, [](std::vector<double>& o, const Part& p) { dump_part(o, p); }, world); break;
        case 16: if (cut) { // adding a region fails: the partition is as before, and adding it again works
            oom(c, "partition-add " + w, [&] { Part p(rq, 0, aq); Part q2; q2.add_quad(rq, 0, aq);
              try { q2.add_quad(rq, cut, aq2); } catch (const std::bad_alloc&) { // retry on the same object
                q2.add_quad(rq, cut, aq2); }
              q2.finalize(rq); return q2; }, [](std::vector<double>& o, const Part& p) { dump_part(o, p); }, world);
            oom(c, "partition-finalize " + w, [&] { Part p(open); try { p.finalize(rq); } catch (const std::bad_alloc&) { p.finalize(rq); } return p; }, [](std::vector<double>& o, const Part& p) { dump_part(o, p); }, world);
          } break;
        case 17: { // likewise
          Part tgt(rq, 0, aq2); std::vector<double> old; dump_part(old, tgt);
          oom(c, "partition-assignment " + w, [&] {
            try { tgt = part; } catch (const std::bad_alloc&) { std::vector<double> now; dump_part(now, tgt); if (!same_vec(old, now)) throw std::logic_error("assignment left a half-assigned partition"); throw; }
            vm::fail_at = -1; Part got(tgt); tgt = Part(rq, 0, aq2); return got; }, [](std::vector<double>& o, const Part& p) { dump_part(o, p); }, world);
          break; }
        case 18: oom(c, "clone " + w, [&] { return (r.s & 1) ? shared->clone() : mine->clone(); }, pq_, world); break;
        case 19: oom(c, "copy " + w, [&] { PQ x(pq); SQ y(sq); AT u(aq); RT v(rq); std::vector<Quadrature<AT>> vv; vv.emplace_back(aq); vv.emplace_back(aq2); vv.emplace_back(u); return x; }, q, world); break;
        case 20: { size_t b = 1 + r.below(20); oom(c, fmt("batch-shared %zu ", b) + w, [&] { return Batcher(b, mine); }, [](std::vector<double>& o, const Batcher& x) { dump_batches(o, x); }, world); break; }
        case 21: { size_t b = 1 + r.below(20); oom(c, fmt("batch-lvalue %zu ", b) + w, [&] { return make_batcher(b, pq); }, [](std::vector<double>& o, const Batcher& x) { dump_batches(o, x); }, world); break; }
        case 22: oom(c, "batch-rvalue " + w, [&] { return make_batcher(5, SQ(sq)); }, [](std::vector<double>& o, const Batcher& x) { dump_batches(o, x); }, world); break;
        case 23: oom(c, "batch-clone " + w, [&] { auto x = bat.clone(); Batcher y(x); y.recenter({1, 2, 3}); y.recenter(cen); return x; }, [](std::vector<double>& o, const Batcher& x) { dump_batches(o, x); }, world); break;
        case 24: { size_t j = r.below(bat.nbatches()); const Batcher& cb = bat; oom(c, "batch-view " + w, [&] { auto x = bat.at(j); auto y = cb.at(j); auto m = *bat.begin(); auto u = *cb.cbegin(); (void)m; (void)u; (void)y; return x; }, [](std::vector<double>& o, const auto& x) { dump(o, std::get<0>(x)); dump(o, std::get<1>(x)); dump(o, std::get<2>(x)); dump(o, std::get<3>(x)); }, world); break; }
        default: {
          oom(c, "sub-quadrature " + w, [&] { return SubQuadrature<RT>(std::make_pair(cut, n), rq); }, q, world);
          oom(c, "product " + w, [&] { using X = ProductQuadrature<ConcatOp, RT, AT>; X x(rq, aq); X y(x); X v(std::move(y)); X u{RT(rq), AT(aq)}; return 1.0; }, [](std::vector<double>& o, double x) { o.push_back(x); }, world);
          prim_of((int)r.below(7), n, r, [&](auto& p, const std::string& pw) { using Q = std::decay_t<decltype(p)>; size_t m = p.npts(); oom(c, "primitive " + pw, [&] { if constexpr (std::is_same_v<Q, UTR>) return Q(m, 0.0, 1.0); else return Q(m); }, q, world); });
          std::string nm = r.coin() ? "murrayhandylaming" : "TreutlerAhlrichs"; oom(c, "name " + nm, [&] { return (double)(unsigned)radial_from_string(nm) + (double)(unsigned)angular_from_string("ahrensbeylkin"); }, [](std::vector<double>& o, double x) { o.push_back(x); }, world);
        }
      }
    });
  });
}

int main(int argc, char** argv) {
  Ctx c; c.init(argc, argv);
  if (c.prop == "C23") c23(c); else return 71;
  return c.finish();
}
