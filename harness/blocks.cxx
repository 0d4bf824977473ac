// C25 building blocks and accessors.
#include "grids.hpp"
#include <integratorxx/batch/spherical_micro_batcher.hpp>
#include <integratorxx/quadratures/primitive.hpp>
#include <integratorxx/util/bound_transform.hpp>
using US = UnprunedSphericalGridSpecification; using PS = PrunedSphericalGridSpecification;
using Batcher = SphericalMicroBatcher<VP, VW>;
using GC1 = GaussChebyshev1<double, double>; using GC2 = GaussChebyshev2<double, double>; using GC2M = GaussChebyshev2Modified<double, double>; using GC3 = GaussChebyshev3<double, double>;
using GLE = GaussLegendre<double, double>; using GLO = GaussLobatto<double, double>; using UTR = UniformTrapezoid<double, double>;
template <class T> struct is_cart : std::false_type {}; template <> struct is_cart<P3> : std::true_type {};

// value dumps (bit patterns as doubles)
static void dump(std::vector<double>& o, double x) { o.push_back(x); }
static void dump(std::vector<double>& o, size_t x) { o.push_back((double)x); }
static void dump(std::vector<double>& o, const P3& x) { o.insert(o.end(), x.begin(), x.end()); }
template <class T> static void dump(std::vector<double>& o, const std::vector<T>& v) { dump(o, v.size()); for (auto& x : v) dump(o, x); }
template <class Q> static void dump_q(std::vector<double>& o, const Q& q) { dump(o, q.points()); dump(o, q.weights()); }
static void dump_multiset(std::vector<double>& o, const VP& p, const VW& w) {
  std::vector<std::array<double, 4>> v; for (size_t i = 0; i < p.size(); ++i) v.push_back({p[i][0], p[i][1], p[i][2], w[i]});
  std::sort(v.begin(), v.end()); dump(o, v.size()); for (auto& x : v) o.insert(o.end(), x.begin(), x.end());
}
static void dump_traits(std::vector<double>& o, int k, const RadialTraits& t) { Rad r = radial(k, t); dump(o, r.r); dump(o, r.w); }
template <class A> static void dump_part(std::vector<double>& o, const RadialGridPartition<A>& p) {
  size_t n = 0; for (auto it = p.cbegin(); it != p.cend(); ++it) { auto v = *it; dump(o, v.first.first); dump(o, v.first.second); dump(o, v.second.points()); dump(o, v.second.weights()); if (++n > 1000) break; }
}
static int kind_of(RadialQuad q) { for (int k = 0; k < 4; ++k) if (RQ[k] == q) return k; return -1; }
static void dump_spec(std::vector<double>& o, const PS& s) {
  dump(o, (size_t)s.radial_quad); if (s.radial_traits && kind_of(s.radial_quad) >= 0) { std::string e; try { dump_traits(o, kind_of(s.radial_quad), *s.radial_traits); } catch (...) { o.push_back(-1); } }
  for (auto& g : s.pruning_regions) { dump(o, g.idx_st); dump(o, g.idx_en); dump(o, (size_t)g.angular_quad); dump(o, g.angular_size); }
}

// four of the sixteen (radial, angular) pairs, to bound the compile time
template <class F> static void with_pair(int k, F&& f) { switch (k) { case 0: f(tag<BKQ>{}, tag<WOQ>{}); break; case 1: f(tag<TAQ>{}, tag<ABQ>{}); break; case 2: f(tag<MHQ>{}, tag<DEQ>{}); break; default: f(tag<MKQ>{}, tag<LLQ>{}); } }
static int partner(int k) { return 3 - k; }
// ---------------------------------------------------------------------- C25
template <class Q> static void accessors(Ctx& c, Q& q, const std::string& w) {
  const Q& k = q; const size_t n = k.npts();
  c.okf(k.points().size() == n && k.weights().size() == n && q.points().size() == n && q.weights().size() == n, "accessor:size", [&] { return w; });
  c.okf(&k.points() == &q.points() && &k.weights() == &q.weights(), "accessor:containers", [&] { return w + ": const and non-const access differ"; });
  c.stat("quadratures walked through every accessor");
}
template <class Q> static void raw_accessors(Ctx& c, Q& q, const std::string& w) {
  const Q& k = q; const size_t n = k.npts();
  if (n && n < 4000) { // with room to spare: obtaining the pointers moves nothing
    q.points().reserve(n + 64); q.weights().reserve(n + 64); const auto* p0 = k.points().data(); const auto* w0 = k.weights().data(); size_t pc = k.points().capacity(), wc = k.weights().capacity();
    bool same = q.points_data() == p0 && q.weights_data() == w0 && k.points_data() == p0 && k.weights_data() == w0; same = same && k.points().data() == p0 && k.weights().data() == w0 && k.points().capacity() == pc && k.weights().capacity() == wc && q.npts() == n;
    c.okf(same, "accessor:stable", [&] { return w + ": obtaining a data pointer moves the data"; });
  }
  c.okf(k.points_data() == k.points().data() && q.points_data() == q.points().data() && k.weights_data() == k.weights().data() && q.weights_data() == q.weights().data(), "accessor:data", [&] { return w; });
  for (size_t i = 0; i < n; ++i) if (n > 10000 && i > 100 && i % 97 && i + 100 < n) continue; else if (!(same_bits(k.points(i), k.points()[i]) && same_bits(k.weights(i), k.weights()[i]) && same_bits(k.points(i), k.points_data()[i]) && same_bits(k.weights(i), k.weights_data()[i]))) { c.violation("accessor:element", w + fmt(" index %zu", i)); break; }
  ++c.checks;
  // just past the end, and everything that some narrower type would take for a valid index
  std::vector<size_t> past = {n, n + 1, 2 * n + 7, n + 1000003, (size_t)-1, 0 - n}; for (int s : {8, 15, 16, 31, 32, 33, 48, 52, 63}) for (size_t j : {(size_t)0, n / 2, n - 1}) if (n && (((size_t)1 << s) + j) >= n) past.push_back(((size_t)1 << s) + j);
  for (size_t i : past) if (i >= n) for (int v = 0; v < 2; ++v) { bool threw = false; try { if (v) (void)k.weights(i); else (void)k.points(i); } catch (const std::exception&) { threw = true; } c.okf(threw, "accessor:bounds", [&] { return w + fmt(": %s(%zu) of %zu is not refused", v ? "weights" : "points", i, n); }); }
  if (!n) return;
  // a write through one accessor is seen through all others
  size_t i = n / 2; auto op = k.points(i); auto ow = k.weights(i);
  q.weights_data()[i] = 17.25; c.okf(k.weights()[i] == 17.25 && k.weights(i) == 17.25, "accessor:write", [&] { return w; });
  q.weights()[i] = ow; c.okf(same_bits(k.weights_data()[i], ow) && same_bits(k.weights(i), ow), "accessor:write", [&] { return w; });
  auto np = op; if constexpr (is_cart<decltype(np)>::value) np = {3, -4, 5}; else np = 33;
  q.points_data()[i] = np; c.okf(same_bits(k.points()[i], np) && same_bits(k.points(i), np), "accessor:write", [&] { return w; });
  q.points()[i] = op; c.okf(same_bits(k.points_data()[i], op), "accessor:write", [&] { return w; });
}
template <class Q, class VP_, class VW_> static void sub_range(Ctx& c, Rng& r, const Q& q, const VP_& P, const VW_& W, size_t b, size_t e, const std::string& w) {
    using S = SubQuadrature<Q>; S s(std::make_pair(b, e), q); const size_t n = q.npts();
    auto same = [&](const auto& x, size_t lo, size_t hi) { if (x.npts() != hi - lo || x.weights().size() != hi - lo || x.points().size() != hi - lo) return false; for (size_t i = lo; i < hi; ++i) if (!same_bits(x.points()[i - lo], P[i]) || !same_bits(x.weights()[i - lo], W[i])) return false; return true; };
    c.okf(same(s, b, e), "sub", [&] { return w + fmt(": range [%zu,%zu) of %zu", b, e, n); }); c.stat("sub-ranges compared");
    size_t b2 = r.below(e - b), e2 = b2 + 1 + r.below(e - b - b2);
    SubQuadrature<S> s2(std::make_pair(b2, e2), s); c.okf(same(s2, b + b2, b + e2), "sub:nested", [&] { return w + fmt(": [%zu,%zu) of [%zu,%zu)", b2, e2, b, e); });
    S s3(s); c.okf(same(s3, b, e), "sub:copy", [&] { return w; });
    S s4(std::move(s)); c.okf(same(s4, b, e), "sub:move", [&] { return w; });
    s4.points()[0] = s4.points()[(e - b) / 2]; s4.weights()[0] = -1;
    c.okf(same(s3, b, e) && same_vec(q.points(), P) && same_vec(q.weights(), W), "sub:shared", [&] { return w + ": writing to a sub-quadrature shows elsewhere"; });
    SubQuadrature<S> s5(std::make_pair(size_t(0), e - b), s3); raw_accessors(c, s5, w + " (sub)");
}
template <class Q> static void ranges(Ctx& c, Rng& r, const Q& q, const std::string& w) {
  const size_t n = q.npts(); if (!n) return; const auto P = q.points(); const auto W = q.weights();
  for (int m = 0; m < (n > 60000 ? 9 : 4); ++m) {
    size_t b = r.coin(0.3) ? 0 : r.below(n), e = r.coin(0.3) ? n : b + 1 + r.below(n - b);
    if (m == 0) { b = 0; e = n; } else if (m == 3) { b = n - 1 - r.below(std::min<size_t>(n, 9)); e = n - r.below(n - b); }
    else if (m > 3) { static const size_t at[] = {32767, 65535, 65536, 65537, 131072}; b = at[m - 4]; if (b >= n) b = n - 1; e = std::min(n, b + 1 + r.below(9)); }
    sub_range(c, r, q, P, W, b, e, w);
  }
  // lengths at which a copy by blocks would be even
  if (n >= 64) for (int m = 0; m < 4; ++m) { size_t step = (size_t)8 << r.below(11); while (step > n) step /= 2; size_t len = step * (1 + r.below(n / step)), b = r.coin(0.3) ? 0 : r.below(n - len + 1); if (r.coin(0.3)) b = n - len; sub_range(c, r, q, P, W, b, b + len, w); c.stat("sub-ranges of whole blocks"); }
}
template <class Q> static void copies(Ctx& c, Q& q, const std::string& w) {
  using B = Quadrature<Q>; const auto P = q.points(); const auto W = q.weights();
  auto same = [&](const auto& x) { return same_vec(x.points(), P) && same_vec(x.weights(), W) && x.npts() == P.size(); };
  Q a(q); c.okf(same(a) && same(q), "copy", [&] { return w; });
  if (P.size()) { c.okf(a.points().data() != q.points().data() && a.weights().data() != q.weights().data(), "copy:shared", [&] { return w; }); a.weights()[0] = 99; a.points()[0] = a.points()[P.size() - 1]; c.okf(same(q), "copy:shared", [&] { return w + ": writing to a copy shows in the original"; }); }
  Q b(q); Q d(std::move(b)); c.okf(same(d), "move", [&] { return w; });
  B s(static_cast<const B&>(q)); c.okf(same(s), "copy:base", [&] { return w; });
  B s2(static_cast<const Q&>(q)); c.okf(same(s2) && same(q), "copy:from derived", [&] { return w; });
  B s3(std::move(d)); c.okf(same(s3), "move:from derived", [&] { return w; });
  std::vector<B> v; for (int i = 0; i < 5; ++i) v.emplace_back(q); v.reserve(v.capacity() + 7); for (auto& x : v) c.okf(same(x), "move:container", [&] { return w; });
  auto h = std::make_unique<Q>(q); B s4(*h); h.reset(); c.okf(same(s4), "copy:outlives", [&] { return w; });
  std::vector<Q> vq(3, q); c.okf(same(vq[2]) && same(vq[0]), "copy:container", [&] { return w; });
  if (P.size()) { vq[1].weights()[0] = 5; c.okf(same(vq[2]) && same(vq[0]), "copy:container", [&] { return w; }); }
}
// anything not commutative and injective, so that every pairing is recognisable
struct PairOp { std::array<double, 2> operator()(const double& a, const double& b) const { return {a, b}; } };
struct ConcatOp { std::array<double, 4> operator()(const double& r, const P3& a) const { return {r, a[0], a[1], a[2]}; } std::array<double, 2> operator()(const double& a, const double& b) const { return {a, b}; } };
struct SumOp { double operator()(const double& a, const double& b) const { return a + 1.25e3 * b; } };
struct MinusOp { double operator()(const double& a, const double& b) const { return a - 3 * b; } };
template <class T> static void flat(std::vector<double>& o, const T& x) { if constexpr (std::is_floating_point_v<T>) o.push_back(x); else o.insert(o.end(), x.begin(), x.end()); }
template <class Op, class Q1, class Q2> static void product(Ctx& c, const Q1& a, const Q2& b, const std::string& w) {
  using T = quadrature_traits<ProductQuadrature<Op, Q1, Q2>>;
  auto [P, W] = T::generate(a, b); size_t n = a.npts() * b.npts();
  if (!c.okf(P.size() == n && W.size() == n, "product:size", [&] { return w + fmt(": %zu points, %zu weights instead of %zu", P.size(), W.size(), n); })) return;
  Op op; std::vector<std::vector<double>> got, want;
  for (size_t i = 0; i < n; ++i) { std::vector<double> v; flat(v, P[i]); flat(v, W[i]); got.push_back(v); }
  for (size_t i = 0; i < a.npts(); ++i) for (size_t j = 0; j < b.npts(); ++j) { std::vector<double> v; flat(v, op(a.points()[i], b.points()[j])); flat(v, op(a.weights()[i], b.weights()[j])); want.push_back(v); }
  std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
  c.okf(got == want, "product:pairs", [&] { return w; }); c.stat("products compared");
}
template <class F> static void prim_of(int k, size_t n, Rng& r, F&& f) {
  switch (k) {
    case 0: { GC1 q(n); f(q, fmt("GaussChebyshev1 %zu", n)); break; } case 1: { GC2 q(n); f(q, fmt("GaussChebyshev2 %zu", n)); break; } case 2: { GC2M q(n); f(q, fmt("GaussChebyshev2Modified %zu", n)); break; }
    case 3: { GC3 q(n); f(q, fmt("GaussChebyshev3 %zu", n)); break; } case 4: { GLE q(n + !n); f(q, fmt("GaussLegendre %zu", n + !n)); break; } case 5: { if (n < 2) n = 2; GLO q(n); f(q, fmt("GaussLobatto %zu", n)); break; }
    default: { if (n < 2) n = 2; double lo = r.uni(-5, 5), up = lo + r.uni(0.1, 9); UTR q(n, lo, up); f(q, fmt("UniformTrapezoid %zu %.17g %.17g", n, lo, up)); break; }
  }
}
template <class A> static void partition_walk(Ctx& c, RadialGridPartition<A>& p, const std::vector<size_t>& cut, const std::vector<A>& as, const std::string& w) {
  const auto& k = p; const size_t m = as.size();
  auto is = [&](size_t i, const auto& v) { return i < m && v.first.first == cut[i] && v.first.second == cut[i + 1] && same_vec(v.second.points(), as[i].points()) && same_vec(v.second.weights(), as[i].weights()); };
  auto count = [&](bool good, size_t n, const char* how) { c.okf(good && n == m, std::string("partition:") + how, [&] { return w + fmt(": saw %zu of %zu regions", n, m); }); c.stat("partitions walked"); };
  { size_t i = 0; bool g = true; for (auto v : p) { g = g && is(i, v); if (++i > m) break; } count(g, i, "range-for"); }
  { size_t i = 0; bool g = true; for (auto&& v : k) { g = g && is(i, v); if (++i > m) break; } count(g, i, "const range-for"); }
  { size_t i = 0; bool g = true; for (auto it = k.cbegin(); it != k.cend(); ++it) { g = g && is(i, *it); if (++i > m) break; } count(g, i, "cbegin"); }
  { size_t i = 0; bool g = true; for (auto it = p.begin(); !(it == p.end());) { auto old = it++; g = g && is(i, *old); if (++i > m) break; } count(g, i, "post-increment"); }
  { size_t i = 0; bool g = true; for (auto it = k.begin(); it != k.end();) { g = g && is(i, *it); auto& x = ++it; g = g && &x == &it; if (++i > m) break; } count(g, i, "pre-increment"); }
  { size_t i = 0; bool g = true; auto b = p.begin(); auto cb = k.cbegin(); for (; i < m; ++i) { g = g && is(i, *(b + (int)i)) && is(i, *(cb + (int)i)); } g = g && b == p.begin() && cb == k.cbegin() && (b + (int)m) == p.end() && (cb + (int)m) == k.cend(); count(g, i, "arithmetic"); }
  { size_t i = 0; bool g = true; for (auto it = k.cend(); i < m;) { it = it + (-1); ++i; g = g && is(m - i, *it); } count(g, i, "backwards"); }
  c.okf(p.partition_idx() == cut, "partition:indices", [&] { return w; });
}
template <class R, class A> static void partitions(Ctx& c, Rng& r, const R& rq, int a, const std::string& w0) {
  const size_t n = rq.npts(); std::set<size_t> s = {0}; for (size_t m = r.below(5); m > 0; --m) s.insert(r.below(n)); if (n > 40) while (s.size() < n - r.below(3)) s.insert(r.below(n)); std::vector<size_t> cut(s.begin(), s.end()); const size_t m = cut.size();
  std::vector<A> as; std::string w = w0 + ":"; for (size_t i = 0; i < m; ++i) { size_t z = pick_ang(r, a, m > 40 ? 20 : 60); as.emplace_back(z); if (i < 12) w += fmt(" %zu(%zu)", cut[i], z); }
  if (m > 12) w += fmt(" ... %zu regions", m); c.stat(m > 127 ? "partitions of more than 127 regions" : "smaller partitions");
  RadialGridPartition<A> p; for (size_t i = 0; i < m; ++i) p.add_quad(rq, cut[i], as[i]);
  p.finalize(rq); if (r.coin()) p.finalize(rq);
  cut.push_back(n); partition_walk(c, p, cut, as, w); c.nontriv(w);
  auto variadic = [&](auto&& q) { partition_walk(c, q, cut, as, w + " (variadic)"); };
  switch (m) { case 1: variadic(RadialGridPartition<A>(rq, cut[0], as[0])); break; case 2: variadic(RadialGridPartition<A>(rq, cut[0], as[0], cut[1], as[1])); break; case 3: variadic(RadialGridPartition<A>(rq, cut[0], as[0], cut[1], as[1], cut[2], as[2])); break; case 4: variadic(RadialGridPartition<A>(rq, cut[0], as[0], cut[1], as[1], cut[2], as[2], cut[3], as[3])); break; default: break; }
  RadialGridPartition<A> q(p); partition_walk(c, q, cut, as, w + " (copy)");
  RadialGridPartition<A> d(rq, 0, as[m - 1]); d = p; partition_walk(c, d, cut, as, w + " (assigned)"); partition_walk(c, p, cut, as, w + " (source)");
  { auto& self = d; d = self; } partition_walk(c, d, cut, as, w + " (self-assigned)");
  RadialGridPartition<A> e(std::move(q)); partition_walk(c, e, cut, as, w + " (moved)");
  RadialGridPartition<A> f; f = std::move(e); partition_walk(c, f, cut, as, w + " (move-assigned)");
  for (int way = 0; way < 2; ++way) { // over a partition of any other length, of other rules
    RadialGridPartition<A> o; if (size_t l = r.below(n < 8 ? n + 1 : 8)) { std::set<size_t> os = {0}; while (os.size() < l) os.insert(r.below(n)); for (size_t x : os) o.add_quad(rq, x, r.coin(0.3) ? as[r.below(m)] : A(pick_ang(r, a, 60))); if (r.coin(0.8)) o.finalize(rq); }
    if (way) { RadialGridPartition<A> t(p); o = std::move(t); } else { auto& back = (o = p); c.ok(&back == &o, "partition:assignment result", w); }
    partition_walk(c, o, cut, as, w + (way ? " (move-assigned over another)" : " (assigned over another)")); partition_walk(c, p, cut, as, w + " (source)"); c.stat("partitions assigned over others");
  }
  if (n > 1) { f.partition_idx().back() = n - 1; partition_walk(c, p, cut, as, w + " (independent)"); partition_walk(c, d, cut, as, w + " (independent)"); }
  { auto h = std::make_unique<RadialGridPartition<A>>(p); RadialGridPartition<A> g(*h); h.reset(); partition_walk(c, g, cut, as, w + " (outlives)"); }
}
static void c25(Ctx& c) {
  const int N = c.thorough ? 16000 : 4000;
  for (int i = 0; i < N; ++i) if (c.begin(fmt("1d #%d", i))) c.guard([&] {
    Rng r = c.case_rng(); size_t n = r.coin(0.2) ? r.below(4) : r.below(60); if (i % 331 == 330) n = i % 7 == 4 || i % 7 == 5 ? (size_t)r.in(2500, 3500) : (size_t)r.in(65530, r.coin() ? 66500 : 140000); size_t n2 = 1 + r.below(7);
    prim_of(i % 7, n, r, [&](auto& q, const std::string& w) {
      accessors(c, q, w); raw_accessors(c, q, w); ranges(c, r, q, w); copies(c, q, w); c.nontriv(w + fmt(" %zu", n2));
      prim_of((int)r.below(7), n2, r, [&](auto& b, const std::string& wb) {
#ifndef WITHOUT_ARRAY_OPS
        product<PairOp>(c, q, b, w + " x " + wb);
#endif
        product<SumOp>(c, q, b, w + " + " + wb); product<MinusOp>(c, q, b, w + " - " + wb); });
    });
  });
  for (int i = 0; i < N; ++i) if (c.begin(fmt("sphere #%d", i))) c.guard([&] {
    Rng r = c.case_rng(); size_t n = 1 + r.below(r.coin(0.3) ? 4 : 30); if ((i / 16) % 3 == 2 && r.coin(0.06)) n = (size_t)r.in(120, 420); int k = i % 4, a = partner(k); double R = r.logu(0.1, 10); auto t = traits_of(k, n, R); size_t z = pick_ang(r, a, 80);
    std::string w = fmt("%s n=%zu R=%.17g x %s %zu", RN[k], n, R, AN[a], z); c.nontriv(w);
    with_pair(k, [&](auto tr, auto ta) {
      using RT = typename decltype(tr)::type; using AT = typename decltype(ta)::type; RT rq(*t); AT aq(z);
      if ((i / 16) % 3 == 0) { accessors(c, rq, w); raw_accessors(c, rq, w); ranges(c, r, rq, w); copies(c, rq, w); accessors(c, aq, w); raw_accessors(c, aq, w); ranges(c, r, aq, w); copies(c, aq, w); }
      else if ((i / 16) % 3 == 1) {
#ifndef WITHOUT_ARRAY_OPS
        product<ConcatOp>(c, rq, aq, w);
#endif
        product<detail::spherical_combine_op<double>>(c, rq, aq, w);
        using S = SphericalQuadrature<RT, AT>; S s(rq, aq, rand_center(r)); accessors(c, s, w); ranges(c, r, s, w); copies(c, s, w);
        raw_accessors(c, static_cast<Quadrature<S>&>(s), w); Base& b = s; c.okf(&b.points() == &s.points() && &b.weights() == &s.weights() && b.npts() == s.npts() && &static_cast<const Base&>(b).points() == &s.points() && &static_cast<const Base&>(b).weights() == &s.weights(), "accessor:base", [&] { return w; });
        // the product class keeps its factors alive on its own
        using PQ = ProductQuadrature<ConcatOp, RT, AT>; { auto h = std::make_unique<PQ>(rq, aq); PQ p2(*h), p3(std::move(*h)); h.reset(); PQ p4{RT(*t), AT(z)}; PQ p5(p4); std::vector<PQ> v; v.push_back(p2); v.push_back(std::move(p3)); v.push_back(p5); }
        c.okf(same_vec(rq.points(), RT(*t).points()) && same_vec(aq.points(), AT(z).points()), "product:argument", [&] { return w; });
      } else {
        partitions<RT, AT>(c, r, rq, a, w);
        RadialGridPartition<AT> p(rq, 0, aq); using S = PrunedSphericalQuadrature<RT, AT>; S s(rq, p, rand_center(r)); accessors(c, s, w); ranges(c, r, s, w); copies(c, s, w); raw_accessors(c, static_cast<Quadrature<S>&>(s), w); Base& b = s; c.okf(&b.points() == &s.points() && &b.weights() == &s.weights() && b.npts() == s.npts(), "accessor:base", [&] { return w; });
      }
    });
  });
}

int main(int argc, char** argv) {
  Ctx c; c.init(argc, argv);
  if (c.prop == "C25") c25(c); else return 71;
  return c.finish();
}
