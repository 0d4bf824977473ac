// A library of self-contained requests to IntegratorXX, each a function of
// (kind, seed) that returns every value it obtained. Used wherever one and the
// same request is made in different circumstances: in many threads (C21),
// again, after other requests, over poisoned memory, in another process or
// build (C22), and under the memory and undefined-behaviour sanitizers (C20).
#pragma once
#include "grids.hpp"
#include <integratorxx/batch/spherical_micro_batcher.hpp>
#include <integratorxx/composite_quadratures/product_quadrature.hpp>
#include <integratorxx/composite_quadratures/sub_quadrature.hpp>
#include <integratorxx/quadratures/primitive.hpp>
#include <integratorxx/util/bound_transform.hpp>
#include <integratorxx/util/copy_grid.hpp>
namespace tk {
using US = UnprunedSphericalGridSpecification; using PS = PrunedSphericalGridSpecification;
using Batcher = SphericalMicroBatcher<VP, VW>;
using GC1 = GaussChebyshev1<double, double>; using GC2 = GaussChebyshev2<double, double>; using GC2M = GaussChebyshev2Modified<double, double>; using GC3 = GaussChebyshev3<double, double>;
using GLE = GaussLegendre<double, double>; using GLO = GaussLobatto<double, double>; using UTR = UniformTrapezoid<double, double>;
using Out = std::vector<double>;
inline void dump(Out& o, double x) { o.push_back(x); }
inline void dump(Out& o, size_t x) { o.push_back((double)x); }
inline void dump(Out& o, const P3& x) { o.insert(o.end(), x.begin(), x.end()); }
template <class T> void dump(Out& o, const std::vector<T>& v) { dump(o, v.size()); for (auto& x : v) dump(o, x); }
template <class Q> void dump_q(Out& o, const Q& q) { dump(o, q.npts()); dump(o, q.points()); dump(o, q.weights()); }
inline void dump_set(Out& o, const VP& p, const VW& w) { // a multiset of pairs
  std::vector<std::array<double, 4>> v; for (size_t i = 0; i < p.size(); ++i) v.push_back({p[i][0], p[i][1], p[i][2], w.at(i)});
  std::sort(v.begin(), v.end()); dump(o, v.size()); for (auto& x : v) o.insert(o.end(), x.begin(), x.end());
}
inline void dump_traits(Out& o, int k, const RadialTraits& t) { Rad r = radial(k, t); dump(o, t.npts()); dump(o, r.r); dump(o, r.w); }
inline int kind_of(RadialQuad q) { for (int k = 0; k < 4; ++k) if (RQ[k] == q) return k; return -1; }
template <class S> void dump_spec(Out& o, const S& s) {
  dump(o, (size_t)s.radial_quad); if (s.radial_traits && kind_of(s.radial_quad) >= 0) dump_traits(o, kind_of(s.radial_quad), *s.radial_traits);
  if constexpr (std::is_same_v<S, PS>) { for (auto& g : s.pruning_regions) { dump(o, g.idx_st); dump(o, g.idx_en); dump(o, (size_t)g.angular_quad); dump(o, g.angular_size); } }
  else { dump(o, (size_t)s.angular_quad); dump(o, s.angular_size); }
}
template <class A> void dump_part(Out& o, const RadialGridPartition<A>& p) {
  size_t n = 0; for (auto it = p.cbegin(); it != p.cend() && ++n < 1000; ++it) { auto v = *it; dump(o, v.first.first); dump(o, v.first.second); dump_q(o, v.second); }
}
inline uint64_t digest(const Out& o) { uint64_t h = 1469598103934665603ull ^ o.size(); for (double x : o) { uint64_t u; std::memcpy(&u, &x, 8); h = (h ^ u) * 1099511628211ull; h ^= h >> 29; } return h; }
// what was batched, as bits and without order (kept when asked for)
inline thread_local uint64_t* batched = nullptr;
inline void dump_batches(Out& o, Batcher& b, bool exact) {
  if (batched) { Out s; dump_set(s, b.points(), b.weights()); *batched = (*batched * 31) ^ digest(s); }
  // exact: batches in their order; otherwise what does not depend on ties
  if (!exact) {
    double s[5] = {0, 0, 0, 0, 0}; for (size_t i = 0; i < b.npts(); ++i) { auto& p = b.points()[i]; double w = b.weights()[i]; s[0] += w; s[1] += w * (p[0] - 2 * p[1] + 3 * p[2]); s[2] += w * (p[0] * p[0] + 2 * p[1] * p[1] + 3 * p[2] * p[2]); s[3] += w * std::sin(p[0] + 2 * p[1] + 3 * p[2]); s[4] += 1; }
    for (int i = 1; i < 4; ++i) { double m = 0; for (size_t j = 0; j < b.npts(); ++j) m += std::fabs(b.weights()[j]); s[i] /= m; }
    for (double x : s) o.push_back(x); dump(o, b.max_batch_size()); return;
  }
  dump(o, b.nbatches()); dump_q(o, b);
  for (auto it = b.begin(); it != b.end(); ++it) { auto [lo, up, p, w] = *it; dump(o, lo); dump(o, up); dump(o, VP(p)); dump(o, VW(w)); }
}
// the rejection of a request is an outcome like any other
template <class F> void rejected(Out& o, F&& f) { try { f(); o.push_back(0); } catch (const std::exception&) { o.push_back(1); } catch (...) { o.push_back(2); } }
struct Cat { std::array<double, 4> operator()(const double& r, const P3& a) const { return {r, a[0], a[1], a[2]}; } std::array<double, 2> operator()(const double& a, const double& b) const { return {a, b}; } };
template <class F> void prim_of(int k, size_t n, Rng& r, F&& f) {
  switch (k) {
    case 0: f(GC1(n)); break; case 1: f(GC2(n)); break; case 2: f(GC2M(n)); break; case 3: f(GC3(n)); break;
    case 4: f(GLE(n + !n)); break; case 5: f(GLO(n < 2 ? 2 : n)); break;
    default: { double lo = r.uni(-5, 5), up = lo + r.uni(0.1, 9); f(UTR(n < 2 ? 2 : n, lo, up)); break; }
  }
}
template <class F> void with_pair(int k, F&& f) { switch (k) { case 0: f(tag<BKQ>{}, tag<WOQ>{}); break; case 1: f(tag<TAQ>{}, tag<ABQ>{}); break; case 2: f(tag<MHQ>{}, tag<DEQ>{}); break; default: f(tag<MKQ>{}, tag<LLQ>{}); } }

// results handed out by the factories are overwritten and kept alive while
// later requests are served, when a request is made with a place to keep them
inline thread_local std::vector<std::shared_ptr<void>>* keep = nullptr;
template <class G> void used(const std::shared_ptr<G>& g) { if (!keep) return; for (auto& x : g->points()) x = {}; for (auto& x : g->weights()) x = -3; keep->push_back(g); if (keep->size() > 8) keep->erase(keep->begin() + 1); }
constexpr int NKIND = 23;
inline const char* kind_name(int k) {
  static const char* N[NKIND] = {"primitive", "radial class", "radial factory", "angular class", "angular factory", "look-up", "names", "unpruned factory", "pruned factory", "unpruned specification", "pruned specification", "pruning scheme", "traits", "spherical class", "pruned class", "partition", "clone and recenter", "batches", "batch life", "map", "sub and product", "rejected", "map values"};
  return N[k];
}
// exact: record also what may differ, at ties, between builds
inline Out run(int kind, uint64_t seed, bool exact = true, size_t scale = 1) {
  // the last three bits of a seed make siblings: requests that differ in one parameter only
  Rng r((seed >> 3) * 1000003 + kind); const int sib = (int)(seed & 7); Out o; int k = (int)r.below(4), a = (int)r.below(4); size_t n = 1 + r.below(20 * scale); const bool big = r.coin(0.08) && kind < 17; if (big) n = 40 + r.below(220); if ((kind == 1 || kind == 2 || kind == 12) && r.coin(0.15)) n = 260 + r.below(1500); double R = r.coin(0.3) ? 1.0 : r.logu(0.1, 8), al = r.coin() ? 0.6 : r.uni(0, 1.2);
  size_t z = pick_ang(r, a, big ? 40 : 200 * scale), z2 = pick_ang(r, a, big ? 40 : 200 * scale); P3 cen = rand_center(r); const double fR = r.coin() ? 2 : r.coin() ? 1.5 : 1 + 1e-7;
  switch (sib) { case 1: R *= fR; break; case 2: al = al == 0.6 ? 0.25 : 0.6; break; case 3: k = (k + 1) % 4; break; case 4: { a = (a + 1) % 4; size_t best = 0; for (int s : ang_sizes()[a]) if (!best || std::abs((double)s - (double)z) < std::abs((double)best - (double)z)) best = s; z = best; break; } case 5: cen[2] += 0.5; std::swap(z, z2); break; case 6: ++n; break; default: break; }
  if (sib == 4) { auto& s = ang_sizes()[a]; size_t best = s[0]; for (int x : s) if (std::abs((double)x - (double)z2) < std::abs((double)best - (double)z2)) best = x; z2 = best; }
  const size_t cut = n > 1 ? 1 + r.below(n - 1) : 0;
  auto t = traits_of(k, n, R, al);
  std::vector<PruningRegion> reg = {{0, n, AQ[a], z}}; if (cut) reg = {{0, cut, AQ[a], z}, {cut, n, AQ[a], z2}};
  switch (kind) {
    case 0: { size_t m = r.coin(0.25) ? 120 + r.below(600) : r.below(120 * scale); prim_of((int)r.below(7), m, r, [&](const auto& q) { dump_q(o, q); }); break; }
    case 1: with_radial(k, [&](auto g) { typename decltype(g)::type q(*t); dump_q(o, q); auto u = q; dump_q(o, u); }); break;
    case 2: { auto g = RadialFactory::generate(RQ[k], *t); dump_q(o, *g); used(g); break; }
    case 3: with_angular(a, [&](auto g) { typename decltype(g)::type q(z); dump_q(o, q); }); break;
    case 4: { auto g = S2Factory::generate(AQ[a], r.coin(0.1) ? pick_ang(r, a, 3000) : z); dump_q(o, *g); used(g); break; }
    case 5: for (int i = 0; i < 40; ++i) { auto edge = [&] { static const int64_t E[] = {INT64_MIN, INT64_MIN + 1, INT64_MIN + 2, INT64_MAX - 2, INT64_MAX - 1, INT64_MAX, INT32_MIN, INT32_MAX, (int64_t)INT32_MAX + 1, (int64_t)INT32_MIN - 1, UINT32_MAX}; return r.coin(0.3) ? E[r.below(11)] + 0 : (int64_t)r.next() >> r.below(64); }; int64_t v = r.coin(0.25) ? edge() : r.in(-3, 140), m = r.coin(0.4) ? (int64_t)pick_ang(r, a, 6000) : r.coin(0.3) ? edge() : r.in(-5, 6000); with_angular(a, [&](auto g) { using T = quadrature_traits<typename decltype(g)::type>; o.push_back((double)T::npts_by_algebraic_order(v)); o.push_back((double)T::algebraic_order_by_npts(m)); o.push_back((double)T::next_algebraic_order(v)); }); } break;
    case 6: { static const char* const N[] = {"Becke", "murraYHandyLaming", "MHL", "mk", "MuraKnowles", "ta", "TREUTLERAHLRICHS"}; static const char* const M[] = {"ll", "LebedevLaikov", "lebedev", "Delley", "AB", "ahrensbeylkin", "WOMERSLEY"};
      for (int i = 0; i < 12; ++i) { o.push_back((double)(unsigned)radial_from_string(N[r.below(7)])); o.push_back((double)(unsigned)angular_from_string(M[r.below(7)])); rejected(o, [&] { (void)radial_from_string("x" + std::string(M[r.below(7)])); }); rejected(o, [&] { (void)angular_from_string(std::string(r.below(40), 'q')); }); } break; }
    case 7: { auto g = SphericalGridFactory::generate_unpruned_grid(RQ[k], *t, AQ[a], z); dump_q(o, *g); dump(o, g->center()); used(g); break; }
    case 8: { auto g = SphericalGridFactory::generate_pruned_grid(RQ[k], *t, reg); dump_q(o, *g); used(g); break; }
    case 9: { US u(RQ[k], *t, AQ[a], z); auto g = SphericalGridFactory::generate_grid(u); dump_q(o, *g); used(g); dump_spec(o, u); break; }
    case 10: { PS s(RQ[k], *t, reg), s2(s); auto g = SphericalGridFactory::generate_grid(s2); dump_q(o, *g); used(g); s2 = s; dump_spec(o, s2); o.push_back(s == s2); break; }
    case 11: { US u(RQ[k], *t, AQ[a], z); auto s = create_pruned_spec(r.coin() ? PruningScheme::Robust : r.coin(0.7) ? PruningScheme::Treutler : PruningScheme::Unpruned, u); dump_spec(o, s); auto g = SphericalGridFactory::generate_grid(s); dump_q(o, *g); used(g); break; }
    case 12: { auto c1 = t->clone(); auto c2 = c1->clone(); o.push_back(c1->compare(*t)); o.push_back(t->compare(*traits_of((k + 1) % 4, n, R, al))); dump_traits(o, k, *c2); auto m = make_radial_traits(RQ[k], n, R); dump_traits(o, k, *m); break; }
    case 13: case 14: case 15: case 16: case 20: with_pair(k, [&](auto tr, auto ta) {
      using RT = typename decltype(tr)::type; using AT = typename decltype(ta)::type; using SQ = SphericalQuadrature<RT, AT>; using PQ = PrunedSphericalQuadrature<RT, AT>; using Part = RadialGridPartition<AT>;
      const int b = 3 - k; size_t y = pick_ang(r, b, 200 * scale), y2 = pick_ang(r, b, 200 * scale); RT rq(*t); AT aq(y), aq2(y2);
      Part part; part.add_quad(rq, 0, aq); if (cut) part.add_quad(rq, cut, aq2); part.finalize(rq);
      if (kind == 13) { SQ q(rq, aq, cen); dump_q(o, q); dump(o, q.center()); SQ q0(rq, aq); dump_q(o, q0); }
      else if (kind == 14) { PQ q(rq, part, cen); dump_q(o, q); Part p2(part); PQ q0(rq, p2); dump_q(o, q0); }
      else if (kind == 15) { Part p(part); Part p3; p3 = p; Part p4(std::move(p)); dump_part(o, p3); dump_part(o, p4); Part p5(rq, 0, aq2); p5.finalize(rq); dump_part(o, p5); }
      else if (kind == 16) { PQ q(rq, part, cen); SQ s(rq, aq); std::shared_ptr<Base> x = r.coin() ? q.clone() : s.clone(); auto y = x->clone(); y->recenter(rand_center(r)); y->recenter(rand_center(r)); dump_q(o, *y); dump(o, y->center()); dump_q(o, *x); x.reset(); PQ q2(q); q2.recenter({1, 2, 3}); PQ q3(std::move(q2)); dump_q(o, q3); dump_q(o, q); }
      else { if (cut < n) { SubQuadrature<RT> sub(std::make_pair(cut, n), rq); dump_q(o, sub); } size_t s0 = r.below(aq.npts()), s1 = s0 + 1 + r.below(aq.npts() - s0); SubQuadrature<AT> sa(std::make_pair(s0, s1), aq); dump_q(o, sa);
        using PR = ProductQuadrature<Cat, RT, AT>; PR pr(rq, aq); PR p2(pr); PR p3(std::move(p2)); }
    }); break;
    case 17: case 18: { size_t bs = 1 + r.below(r.coin(0.3) ? 4 : 60); PS s(RQ[k], *t, reg); auto g = SphericalGridFactory::generate_grid(s); const size_t N = g->npts();
      std::shared_ptr<Base> sh = r.coin() ? std::shared_ptr<Base>(std::move(g)) : std::shared_ptr<Base>(g->clone());
      Batcher b(N > 3000 ? std::max<size_t>(bs, 50) : bs, sh); dump_batches(o, b, exact);
      if (kind == 18) { auto cl = b.clone(); b.recenter(cen); Batcher cp(b); Batcher mv(std::move(cp)); cl.recenter({.5, 0, -.25}); dump_batches(o, mv, exact); dump_batches(o, cl, exact); const Batcher& cb = b; rejected(o, [&] { (void)cb.at(cb.nbatches()); }); auto v = cb.at(r.below(cb.nbatches())); if (exact) { dump(o, VP(std::get<2>(v))); dump(o, VW(std::get<3>(v))); } }
      break; }
    case 22: { // the maps themselves, at the abscissae other parameter sets are evaluated at
      static const double X[] = {0.5, 0.25, 0.75, 0.125, 0.5}; if (r.coin()) k = 1; auto v = traits_of(k, n, R, al); const bool first = r.coin();
      auto eval = [&](const auto& m) { for (double x : X) for (int s = 0; s < (k < 2 ? 2 : 1); ++s) { double y = s ? -x : x; if (first) { o.push_back(m.radial_jacobian(y)); o.push_back(m.radial_transform(y)); } else { o.push_back(m.radial_transform(y)); o.push_back(m.radial_jacobian(y)); } } o.push_back(m.radial_jacobian(0.5)); };
      switch (k) { case 0: eval(dynamic_cast<const BeckeRadialTraits&>(*v)); break; case 1: eval(dynamic_cast<const TreutlerAhlrichsRadialTraits&>(*v)); break; case 2: eval(dynamic_cast<const MurrayHandyLamingRadialTraits<2>&>(*v)); break; default: eval(dynamic_cast<const MuraKnowlesRadialTraits&>(*v)); }
      break; }
    case 19: for (int i = 0; i < 30; ++i) { const double inf = INFINITY; double lo = r.uni(-5, 5), up = lo + r.uni(0.1, 9); int m = (int)r.below(4); if (m == 1) up = inf; if (m == 2) lo = -inf; if (m == 3) { lo = -inf; up = inf; } double x = r.uni(-0.95, 0.95), y = r.uni(0.1, 2); auto [p, w] = transform_minus_one_to_one(lo, up, x, y); o.push_back(p); o.push_back(w); } break;
    default: {
      rejected(o, [&] { S2Factory::generate(AQ[a], z + 50000); }); rejected(o, [&] { with_angular(a, [&](auto g) { typename decltype(g)::type q(0); (void)q; }); });
      rejected(o, [&] { UTR q(r.below(2), 0.0, 1.0); (void)q; }); rejected(o, [&] { GLO q(r.below(2)); (void)q; });
      rejected(o, [&] { RadialFactory::generate(RQ[(k + 1) % 4], *t); }); rejected(o, [&] { RadialFactory::generate((RadialQuad)77, *t); }); rejected(o, [&] { S2Factory::generate((AngularQuad)77, z); });
      auto bad = reg; if (r.coin()) bad.clear(); else if (r.coin()) bad[0].idx_st = 1; else bad.back().idx_en = n + 1; rejected(o, [&] { SphericalGridFactory::generate_pruned_grid(RQ[k], *t, bad); });
      US u(RQ[k], *t, AQ[a], z); u.radial_traits.reset(); rejected(o, [&] { SphericalGridFactory::generate_grid(u); }); rejected(o, [&] { create_pruned_spec((PruningScheme)99, US(RQ[k], *t, AQ[a], z)); });
      auto g = S2Factory::generate(AQ[a], z); dump_q(o, *g);
    }
  }
  return o;
}
} // namespace tk
