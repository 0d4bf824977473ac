// Common access to the library's radial, angular and spherical types by
// (radial kind, angular kind).
#pragma once
#include "vcommon.hpp"
#include <integratorxx/quadratures/radial.hpp>
#include <integratorxx/quadratures/s2.hpp>
#include <integratorxx/composite_quadratures/spherical_quadrature.hpp>
#include <integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp>
#include <integratorxx/generators/spherical_factory.hpp>
using namespace IntegratorXX;
using LD = long double;
using P3 = std::array<double, 3>;
using VP = std::vector<P3>;
using VW = std::vector<double>;
using Base = SphericalQuadratureBase<VP, VW>;
using BasePtr = std::shared_ptr<Base>;
static const LD PIL = acosl(-1.0L);
static const LD EPS = 2.220446049250313e-16L;
using BKQ = Becke<double, double>; using TAQ = TreutlerAhlrichs<double, double>; using MHQ = MurrayHandyLaming<double, double>; using MKQ = MuraKnowles<double, double>;
using LLQ = LebedevLaikov<double>; using DEQ = Delley<double>; using ABQ = AhrensBeylkin<double>; using WOQ = Womersley<double>;
template <class T> struct tag { using type = T; };
static const char* RN[] = {"becke", "treutlerahlrichs", "murrayhandylaming", "muraknowles"};
static const char* AN[] = {"lebedev", "delley", "ahrens", "womersley"};
static const RadialQuad RQ[] = {RadialQuad::Becke, RadialQuad::TreutlerAhlrichs, RadialQuad::MurrayHandyLaming, RadialQuad::MuraKnowles};
static const AngularQuad AQ[] = {AngularQuad::LebedevLaikov, AngularQuad::Delley, AngularQuad::AhrensBeylkin, AngularQuad::Womersley};
template <class F> auto with_radial(int k, F&& f) { switch (k) { case 0: return f(tag<BKQ>{}); case 1: return f(tag<TAQ>{}); case 2: return f(tag<MHQ>{}); default: return f(tag<MKQ>{}); } }
template <class F> auto with_angular(int k, F&& f) { switch (k) { case 0: return f(tag<LLQ>{}); case 1: return f(tag<DEQ>{}); case 2: return f(tag<ABQ>{}); default: return f(tag<WOQ>{}); } }
// every traits constructor takes (npts, R[, alpha])
static inline std::unique_ptr<RadialTraits> traits_of(int k, size_t n, double R, double al = 0.6) {
  switch (k) { case 0: return std::make_unique<BeckeRadialTraits>(n, R); case 1: return std::make_unique<TreutlerAhlrichsRadialTraits>(n, R, al); case 2: return std::make_unique<MurrayHandyLamingRadialTraits<2>>(n, R); default: return std::make_unique<MuraKnowlesRadialTraits>(n, R); }
}
static inline const std::vector<std::vector<int>>& ang_sizes() {
  static const std::vector<std::vector<int>> s = {
#include "published_sizes.inc"
  };
  return s;
}
static inline int64_t order_of(int a, int64_t n) { return with_angular(a, [&](auto t) { return quadrature_traits<typename decltype(t)::type>::algebraic_order_by_npts(n); }); }
static inline int64_t npts_of(int a, int64_t o) { return with_angular(a, [&](auto t) { return quadrature_traits<typename decltype(t)::type>::npts_by_algebraic_order(o); }); }
// a supported angular size, at most `top` points (the smallest one if none is)
static inline size_t pick_ang(Rng& r, int a, size_t top) {
  auto& s = ang_sizes()[a]; size_t k = 0; while (k < s.size() && (size_t)s[k] <= top) ++k;
  if (k == 0) return s[0];
  if (r.coin(0.3)) return s[r.below(std::min<size_t>(k, 4))];
  return s[r.below(k)];
}
struct Rad { VW r, w; };
struct Ang { VP p; VW w; };
static inline Rad radial(int k, const RadialTraits& t) { return with_radial(k, [&](auto g) { typename decltype(g)::type q(t); return Rad{q.points(), q.weights()}; }); }
static inline Ang angular(int a, size_t n) { return with_angular(a, [&](auto g) { typename decltype(g)::type q(n); return Ang{q.points(), q.weights()}; }); }

// Expected composite grid: regions of radial indices, each with its angular rule.
struct Region { size_t st, en; const Ang* a; };
static inline size_t expected_size(const std::vector<Region>& rs) { size_t n = 0; for (auto& r : rs) n += (r.en - r.st) * r.a->p.size(); return n; }
// one expected (point, weight) pair against an observed one
static inline bool pair_ok(const Rad& R, size_t i, const Ang& A, size_t j, const P3& cen, const P3& p, double w, LD& perr, LD& werr) {
  bool good = true;
  for (int k = 0; k < 3; ++k) {
    LD e = (LD)R.r[i] * A.p[j][k] + cen[k], d = fabsl(p[k] - e), tol = 2 * EPS * (fabsl((LD)R.r[i] * A.p[j][k]) + fabsl(cen[k])) + 1e-320L;
    perr = std::max(perr, d / tol); good = good && d <= tol;
  }
  LD W = (LD)R.w[i] * A.w[j] * R.r[i] * R.r[i], d = fabsl(w - W), tol = 4 * EPS * fabsl(W) + 1e-320L;
  werr = std::max(werr, d / tol); return good && d <= tol;
}
static void compare_grid(Ctx& c, const char* what, const Rad& R, const std::vector<Region>& rs, const P3& cen, const VP& p, const VW& w, const std::string& ctx) {
  size_t N = expected_size(rs);
  if (!c.okf(p.size() == N && w.size() == N, std::string(what) + ":size", [&] { return fmt("%s: %zu points and %zu weights, expected %zu", ctx.c_str(), p.size(), w.size(), N); })) return;
  LD pe = 0, we = 0; bool all = true; size_t at = 0, off = 0;
  std::string detail;
  for (auto& g : rs) {
    size_t nr = g.en - g.st, na = g.a->p.size();
    for (size_t j = 0; j < na && all; ++j) for (size_t i = 0; i < nr; ++i) {
      size_t ij = off + i + j * nr;
      if (!pair_ok(R, g.st + i, *g.a, j, cen, p[ij], w[ij], pe, we)) { all = false; at = ij; detail = fmt("radial %zu angular %zu: (%.17g %.17g %.17g) w %.17g, expected r=%.17g a=(%.17g %.17g %.17g) w=%.17g", g.st + i, j, p[ij][0], p[ij][1], p[ij][2], w[ij], R.r[g.st + i], g.a->p[j][0], g.a->p[j][1], g.a->p[j][2], (double)((LD)R.w[g.st + i] * g.a->w[j] * R.r[g.st + i] * R.r[g.st + i])); break; }
    }
    off += nr * na;
    if (!all) break;
  }
  ++c.checks; c.stat("composite points compared", N);
  if (all) { c.peak("point error / tolerance", pe); c.peak("weight error / tolerance", we); return; }
  // The order of the points is the library's own business: match them as a set.
  std::vector<std::vector<char>> hit; for (auto& g : rs) hit.emplace_back((g.en - g.st) * g.a->p.size(), 0);
  for (size_t q = 0; q < N; ++q) {
    LD d[3], n = 0; for (int k = 0; k < 3; ++k) { d[k] = (LD)p[q][k] - cen[k]; n += d[k] * d[k]; } n = sqrtl(n);
    bool found = false;
    size_t i0 = std::lower_bound(R.r.begin(), R.r.end(), (double)n) - R.r.begin();
    for (size_t i = i0 > 3 ? i0 - 3 : 0; i < std::min(R.r.size(), i0 + 4) && !found; ++i)
      for (size_t k = 0; k < rs.size() && !found; ++k) if (i >= rs[k].st && i < rs[k].en) {
        size_t nr = rs[k].en - rs[k].st;
        for (size_t j = 0; j < rs[k].a->p.size(); ++j) if (!hit[k][(i - rs[k].st) + j * nr]) {
          LD a = 0, b = 0; if (fabsl(p[q][0] - ((LD)R.r[i] * rs[k].a->p[j][0] + cen[0])) <= 1e-9L * (n + fabsl(cen[0])) && pair_ok(R, i, *rs[k].a, j, cen, p[q], w[q], a, b)) { hit[k][(i - rs[k].st) + j * nr] = 1; found = true; break; }
        }
      }
    if (!found) { c.violation(std::string(what) + ":values", fmt("%s: entry %zu is no product of a radial and an angular point; first difference at %zu: %s", ctx.c_str(), q, at, detail.c_str())); return; }
  }
}
static inline P3 rand_center(Rng& r) {
  if (r.coin(0.25)) return {0, 0, 0};
  double s = r.coin(0.15) ? 1e6 : r.coin(0.2) ? 1e-3 : 5; P3 p; for (auto& x : p) x = r.coin(0.15) ? 0.0 : r.uni(-s, s);
  // centres whose coordinates are related: equal, opposite, adding up to zero, integers, one axis
  switch (r.below(12)) {
    case 0: p[r.below(3)] = -p[r.below(3)] - p[r.below(3)]; break;
    case 1: for (auto& x : p) x = std::floor(x); break;
    case 2: p = {p[0], -p[0], 0}; if (r.coin()) std::swap(p[1], p[2]); break;
    case 3: p = {p[1], p[1], p[1]}; if (r.coin()) p[r.below(3)] = -p[1]; break;
    case 4: { double v = p[2]; size_t k = r.below(3); p = {0, 0, 0}; p[k] = v; break; }
    case 5: { double a = std::floor(p[0]), b = std::floor(p[1]); p = {a, b, -a - b}; if (r.coin()) std::swap(p[0], p[2]); break; }
    default: break;
  }
  for (auto& x : p) x += 0.0; // no negative zero
  return p;
}
