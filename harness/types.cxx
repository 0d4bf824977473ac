// C24 other floating-point types against the double rules. REAL is given on
// the command line: float or long double.
#include "vcommon.hpp"
#include <integratorxx/quadratures/radial.hpp>
#include <integratorxx/quadratures/s2.hpp>
#include <integratorxx/quadratures/primitive.hpp>
#include <integratorxx/composite_quadratures/spherical_quadrature.hpp>
#include <integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp>
#include <integratorxx/batch/spherical_micro_batcher.hpp>
#include <integratorxx/util/bound_transform.hpp>
using namespace IntegratorXX;
using LD = long double; using F = REAL;
#define STR2(x) #x
#define STR(x) STR2(x)
static const char* FN = STR(REAL);
static const bool FLT = sizeof(F) == 4;
static const LD EC = FLT ? std::numeric_limits<float>::epsilon() : std::numeric_limits<double>::epsilon(); // of the coarser type
template <class T> struct tag { using type = T; };
static const std::vector<std::vector<int>> SIZES = {
#include "published_sizes.inc"
};
static const char* AN[] = {"lebedev", "delley", "ahrens", "womersley"};
static const char* PN[] = {"GaussChebyshev1", "GaussChebyshev2", "GaussChebyshev2Modified", "GaussChebyshev3", "GaussLegendre", "GaussLobatto", "UniformTrapezoid"};
static const char* RN[] = {"becke", "treutlerahlrichs", "murrayhandylaming", "muraknowles"};
static const char* MN[] = {"points and weights", "points only", "weights only"};
template <class P, class W, class G> void with_prim(int k, G&& g) {
  switch (k) { case 0: g(tag<GaussChebyshev1<P, W>>{}); break; case 1: g(tag<GaussChebyshev2<P, W>>{}); break; case 2: g(tag<GaussChebyshev2Modified<P, W>>{}); break; case 3: g(tag<GaussChebyshev3<P, W>>{}); break; case 4: g(tag<GaussLegendre<P, W>>{}); break; case 5: g(tag<GaussLobatto<P, W>>{}); break; default: g(tag<UniformTrapezoid<P, W>>{}); }
}
template <class P, class W, class G> void with_rad(int k, G&& g) {
  switch (k) { case 0: g(tag<Becke<P, W>>{}); break; case 1: g(tag<TreutlerAhlrichs<P, W>>{}); break; case 2: g(tag<MurrayHandyLaming<P, W>>{}); break; default: g(tag<MuraKnowles<P, W>>{}); }
}
template <class R, class G> void with_ang(int a, G&& g) { switch (a) { case 0: g(tag<LebedevLaikov<R>>{}); break; case 1: g(tag<Delley<R>>{}); break; case 2: g(tag<AhrensBeylkin<R>>{}); break; default: g(tag<Womersley<R>>{}); } }
template <class Q> static auto make_prim(size_t n, LD lo, LD up) {
  using P = typename Q::point_type;
  if constexpr (std::is_constructible_v<Q, size_t, P, P>) return Q(n, (P)lo, (P)up); else { (void)lo; (void)up; return Q(n); }
}
struct Num { std::vector<LD> p, w; };
template <class Q> static Num num(const Q& q) { Num r; r.p.assign(q.points().begin(), q.points().end()); r.w.assign(q.weights().begin(), q.weights().end()); return r; }
static std::unique_ptr<RadialTraits> traits_of(int k, size_t n, double R, double al) {
  switch (k) { case 0: return std::make_unique<BeckeRadialTraits>(n, R); case 1: return std::make_unique<TreutlerAhlrichsRadialTraits>(n, R, al); case 2: return std::make_unique<MurrayHandyLamingRadialTraits<2>>(n, R); default: return std::make_unique<MuraKnowlesRadialTraits>(n, R); }
}
// the double rule a radial rule is made from, to know how close a node is to an end
static std::vector<LD> base_nodes(int k, size_t n) {
  if (k == 2 || k == 3) { UniformTrapezoid<double, double> u(n + 2, 0., 1.); std::vector<LD> x(u.points().begin() + 1, u.points().end() - 1); return x; }
  GaussChebyshev2<double, double> g(n); return std::vector<LD>(g.points().begin(), g.points().end());
}
template <class G> static void mixes(G&& g) { g(tag<F>{}, tag<F>{}, 0); g(tag<F>{}, tag<double>{}, 1); g(tag<double>{}, tag<F>{}, 2); }

static void prims(Ctx& c) {
  const size_t top = c.thorough ? (FLT ? 900 : 1500) : (FLT ? 260 : 300);
  for (int k = 0; k < 7; ++k) for (size_t n = k >= 5 ? 2 : k == 4 ? 1 : 0; n <= (k == 4 || k == 5 ? (FLT ? 900 : 1600) : c.thorough ? 20000 : 5000); n += n < top ? 1 : 1 + n / 9)
    if (c.begin(fmt("%s %s %zu", FN, PN[k], n))) c.guard([&] {
      Rng r = c.case_rng(); LD lo = 0, up = 1; if (k == 6 && n % 2) { lo = (float)r.uni(-6, 6); up = lo + (float)r.uni(0.5, 9); up = (float)up; }
      Num d; with_prim<double, double>(k, [&](auto t) { d = num(make_prim<typename decltype(t)::type>(n, lo, up)); });
      mixes([&](auto tp, auto tw, int m) { with_prim<typename decltype(tp)::type, typename decltype(tw)::type>(k, [&](auto t) {
        using Q = typename decltype(t)::type; std::string w = fmt("%s %s %zu (%s)", FN, PN[k], n, MN[m]);
        c.ok(std::is_same_v<typename Q::point_type, typename decltype(tp)::type> && std::is_same_v<typename Q::weight_type, typename decltype(tw)::type>, "type", w);
        Num q; try { q = num(make_prim<Q>(n, lo, up)); } catch (const std::exception& e) { c.violation(fmt("prim:throws:%s", PN[k]), w + ": " + e.what()); return; }
        if (!c.okf(q.p.size() == n && q.w.size() == n, fmt("prim:size:%s", PN[k]), [&] { return w; })) return;
        LD pe = 0, we = 0; bool ord = true, pos = true; const LD len = up - lo, mag = std::max(fabsl(lo), fabsl(up));
        for (size_t i = 0; i < n; ++i) {
          LD x = d.p[i], end = k == 6 ? 1 : k == 3 ? std::min(x, 1 - x) : 1 - x * x; if (k == 5 && (i == 0 || i + 1 == n)) end = 1;
          LD tolp = k == 6 ? EC * 2 * mag : 2 * EC, tolw = fabsl(d.w[i]) * EC * (1 + 1 / std::max(end, EC)) * (k == 4 || k == 5 ? 1 + n / 8.0L : 1) ;
          if (k == 6) tolw = EC * 4 * std::max(mag, len) / (n - 1);
          LD a = fabsl(q.p[i] - d.p[i]) / tolp, b = fabsl(q.w[i] - d.w[i]) / tolw;
          if (!(a <= pe)) pe = a; if (!(b <= we)) we = b;
          pos = pos && (q.w[i] > 0); ord = ord && (i == 0 || q.p[i] > q.p[i - 1] || d.p[i] - d.p[i - 1] < 16 * tolp);
        }
        c.peak(fmt("%s point error / tolerance unit", PN[k]), pe); c.peak(fmt("%s weight error / tolerance unit", PN[k]), we);
        { LD s = 0, s2 = 0, t = 0, t2 = 0; for (size_t i = 0; i < n; ++i) { s += q.w[i]; s2 += q.w[i] * q.p[i] * q.p[i]; t += d.w[i]; t2 += d.w[i] * d.p[i] * d.p[i]; }
          LD u = EC * (k == 4 || k == 5 ? 1 + n / 40.0L : 1), e0 = n ? fabsl(s - t) / (u * t) : 0, e2 = n > 1 && t2 > 0 ? fabsl(s2 - t2) / (u * (t2 + (k == 6 ? mag * mag * len : 0))) : 0;
          c.peak(fmt("%s moment error / tolerance unit", PN[k]), std::max(e0, e2)); c.okf(std::max(e0, e2) <= (k == 4 || k == 5 ? 60 : 25), fmt("prim:moment:%s", PN[k]), [&] { return w + fmt(": sums of weights off by %.3Lg, %.3Lg tolerance units from the double rule", e0, e2); }); }
        c.okf(pe <= (k == 4 || k == 5 ? 2 : 5), fmt("prim:points:%s", PN[k]), [&] { return w + fmt(": off by %.3Lg tolerance units from the double rule", pe); });
        c.okf(we <= 8, fmt("prim:weights:%s", PN[k]), [&] { return w + fmt(": off by %.3Lg tolerance units from the double rule", we); });
        c.okf(ord && pos, fmt("prim:shape:%s", PN[k]), [&] { return w + (ord ? ": a weight is not positive" : ": points are not increasing"); });
        c.stat("primitive rules compared");
      }); });
      if (n > 2) c.nontriv();
    });
}
static void radials(Ctx& c) {
  const size_t top = c.thorough ? 300 : 120;
  for (int k = 0; k < 4; ++k) for (size_t n = 1; n <= (k == 3 ? 2500 : c.thorough ? 1200 : 400); n += n < top ? 1 : n / 6) for (int rep = 0; rep < 2; ++rep)
    if (c.begin(fmt("%s %s %zu.%d", FN, RN[k], n, rep))) c.guard([&] {
      Rng r = c.case_rng(); double R = rep ? r.logu(0.05, 20) : 1.0, al = rep ? r.coin(0.2) ? r.uni(1, 4) : r.uni(0, 1.2) : 0.6; auto t = traits_of(k, n, R, al); auto x = base_nodes(k, n);
      Num d; with_rad<double, double>(k, [&](auto q) { typename decltype(q)::type g(*t); d = num(g); });
      mixes([&](auto tp, auto tw, int m) { with_rad<typename decltype(tp)::type, typename decltype(tw)::type>(k, [&](auto q) {
        using Q = typename decltype(q)::type; std::string w = fmt("%s %s %zu R=%.17g alpha=%.17g (%s)", FN, RN[k], n, R, al, MN[m]); Num g;
        try { g = num(Q(*t)); } catch (const std::exception& e) { c.violation(fmt("radial:throws:%s", RN[k]), w + ": " + e.what()); return; }
        if (!c.okf(g.p.size() == n && g.w.size() == n, fmt("radial:size:%s", RN[k]), [&] { return w; })) return;
        LD pe = 0, we = 0; bool ord = true, pos = true;
        for (size_t i = 0; i < n; ++i) {
          LD lo = k < 2 ? 1 + x[i] : x[i], up = 1 - x[i], u = EC * (1 + 1 / lo + 1 / up + 0) + (k == 3 ? std::numeric_limits<double>::epsilon() / (lo * lo * lo) : 0);
          LD a = fabsl(g.p[i] - d.p[i]) / (fabsl(d.p[i]) * u), b = fabsl(g.w[i] - d.w[i]) / (fabsl(d.w[i]) * u); if (!(a <= pe)) pe = a; if (!(b <= we)) we = b;
          pos = pos && g.w[i] > 0 && g.p[i] > 0; ord = ord && (i == 0 || g.p[i] > g.p[i - 1] || d.p[i] - d.p[i - 1] < 48 * u * fabsl(d.p[i]));
        }
        c.peak(fmt("%s point error / tolerance unit", RN[k]), pe); c.peak(fmt("%s weight error / tolerance unit", RN[k]), we);
        c.okf(pe <= 24, fmt("radial:points:%s", RN[k]), [&] { return w + fmt(": off by %.3Lg tolerance units from the double rule", pe); });
        c.okf(we <= 24, fmt("radial:weights:%s", RN[k]), [&] { return w + fmt(": off by %.3Lg tolerance units from the double rule", we); });
        c.okf(ord && pos, fmt("radial:shape:%s", RN[k]), [&] { return w; });
        c.stat("radial rules compared");
      }); });
      if (n > 1) c.nontriv();
    });
}
static void angulars(Ctx& c) {
  for (int a = 0; a < 4; ++a) for (int n : SIZES[a]) if (c.begin(fmt("%s %s %d", FN, AN[a], n))) c.guard([&] {
    with_ang<double>(a, [&](auto t) { with_ang<F>(a, [&](auto u) {
      using D = typename decltype(t)::type; using Q = typename decltype(u)::type;
      if constexpr (std::is_same_v<D, LebedevLaikov<double>> == std::is_same_v<Q, LebedevLaikov<F>> && std::is_same_v<D, Delley<double>> == std::is_same_v<Q, Delley<F>> && std::is_same_v<D, AhrensBeylkin<double>> == std::is_same_v<Q, AhrensBeylkin<F>>) {
        D d(n); Q q(n); LD pe = 0, we = 0;
        if (!c.okf(q.npts() == (size_t)n && q.weights().size() == (size_t)n, fmt("angular:size:%s", AN[a]), [&] { return fmt("%d", n); })) return;
        for (int i = 0; i < n; ++i) { for (int x = 0; x < 3; ++x) { LD e = fabsl((LD)q.points()[i][x] - d.points()[i][x]); if (!(e <= pe)) pe = e; } LD e = fabsl((LD)q.weights()[i] - d.weights()[i]) / fabsl(d.weights()[i]); if (!(e <= we)) we = e; }
        c.peak("angular point difference / epsilon", pe / EC); c.peak("angular weight difference / epsilon", we / EC);
        c.okf(pe <= EC && we <= 4 * EC, fmt("angular:%s:%d", AN[a], n), [&] { return fmt("%s %s %d: differs from the double grid by %.3Lg (points), %.3Lg (weights)", FN, AN[a], n, pe, we); });
        using TD = quadrature_traits<D>; using TF = quadrature_traits<Q>; int64_t o = TD::algebraic_order_by_npts(n);
        c.okf(TF::algebraic_order_by_npts(n) == o && TF::npts_by_algebraic_order(o) == TD::npts_by_algebraic_order(o) && TF::next_algebraic_order(o) == TD::next_algebraic_order(o) && TF::next_algebraic_order(o + 1) == TD::next_algebraic_order(o + 1), fmt("angular:order:%s", AN[a]), [&] { return fmt("%d", n); });
        bool threw = false; if (std::find(SIZES[a].begin(), SIZES[a].end(), n + 1) == SIZES[a].end()) { try { Q b(n + 1); } catch (const std::exception&) { threw = true; } c.okf(threw, fmt("angular:accepts:%s", AN[a]), [&] { return fmt("%d", n + 1); }); }
        c.stat("angular grids compared"); if (n > 6) c.nontriv();
      }
    }); });
  });
}
template <template <class, class> class RT, template <class> class AT> struct Comp {
  template <class R> using SQ = SphericalQuadrature<RT<R, R>, AT<R>>; template <class R> using PQ = PrunedSphericalQuadrature<RT<R, R>, AT<R>>;
  template <class G, class H> static void grid_same(Ctx& c, const G& q, const H& d, LD rel, LD shift, const std::string& w, const char* key) {
    if (!c.okf(q.npts() == d.npts() && q.weights().size() == d.npts(), std::string(key) + ":size", [&] { return w; })) return;
    LD pe = 0, we = 0; for (size_t i = 0; i < d.npts(); ++i) { LD rr = 0; for (int x = 0; x < 3; ++x) { LD t = (LD)d.points()[i][x] - d.center()[x]; rr += t * t; } rr = sqrtl(rr); for (int x = 0; x < 3; ++x) { LD e = fabsl((LD)q.points()[i][x] - d.points()[i][x]) / (rel * rr + 4 * EC * shift + 1e-40L); if (!(e <= pe)) pe = e; } LD e = fabsl((LD)q.weights()[i] - d.weights()[i]) / (4 * rel * fabsl(d.weights()[i]) + 1e-40L); if (!(e <= we)) we = e; }
    c.peak(std::string(key) + " point error / tolerance", pe); c.peak(std::string(key) + " weight error / tolerance", we);
    c.okf(pe <= 1, std::string(key) + ":points", [&] { return w + fmt(": %.3Lg times the tolerance", pe); }); c.okf(we <= 1, std::string(key) + ":weights", [&] { return w + fmt(": %.3Lg times the tolerance", we); });
    c.stat("composite points compared", d.npts());
  }
  static void run(Ctx& c, Rng& r, int k, int a) {
    size_t n = 1 + r.below(24); double R = r.logu(0.1, 8); auto t = traits_of(k, n, R, 0.6); std::vector<int> ok; for (int s : SIZES[a]) if (s <= 120) ok.push_back(s); int z = ok[r.below(ok.size())], z2 = ok[r.below(ok.size())];
    size_t cut = n > 1 ? 1 + r.below(n - 1) : 0; std::array<double, 3> cd = {0, 0, 0}; std::array<F, 3> cf = {0, 0, 0}; if (r.coin(0.6)) for (int i = 0; i < 3; ++i) { cd[i] = (float)r.uni(-3, 3); cf[i] = (F)cd[i]; }
    LD shift = fabsl(cd[0]) + fabsl(cd[1]) + fabsl(cd[2]); auto x = base_nodes(k, n); LD rel = 0; for (auto v : x) rel = std::max(rel, 1 / (k < 2 ? 1 + v : v) + 1 / (1 - v) + (k == 3 ? 1 / (v * v * v) : 0)); rel = 24 * EC * (1 + rel) + 2 * EC;
    std::string w = fmt("%s %s n=%zu R=%.17g x %s %d,%d cut %zu", FN, RN[k], n, R, AN[a], z, z2, cut); c.nontriv(w);
    RT<double, double> rd(*t); RT<F, F> rf(*t); AT<double> ad(z), ad2(z2); AT<F> af(z), af2(z2);
    SQ<double> sd(rd, ad, cd); SQ<F> sf(rf, af, cf); grid_same(c, sf, sd, rel, shift, w, "spherical");
    if (shift == 0) { SQ<F> s0(rf, af); grid_same(c, s0, sd, rel, 0, w, "spherical"); }
    RadialGridPartition<AT<double>> pd; RadialGridPartition<AT<F>> pf; pd.add_quad(rd, 0, ad); pf.add_quad(rf, 0, af); if (cut) { pd.add_quad(rd, cut, ad2); pf.add_quad(rf, cut, af2); } pd.finalize(rd); pf.finalize(rf);
    PQ<double> gd(rd, pd, cd); PQ<F> gf(rf, pf, cf); grid_same(c, gf, gd, rel, shift, w, "pruned");
    // life cycle in this type
    auto cl = gf.clone(); using B = SphericalQuadratureBase<std::vector<std::array<F, 3>>, std::vector<F>>; B& b = *cl; b.recenter({1, 2, 3}); b.recenter(cf); c.okf(b.center() == cf, "recenter", [&] { return w; });
    LD dev = 0; for (size_t i = 0; i < gf.npts(); ++i) for (int q = 0; q < 3; ++q) { LD v = fabsl((LD)b.points()[i][q] - gf.points()[i][q]) / (8 * EC * (fabsl(gf.points()[i][q]) + shift + 4)); if (!(v <= dev)) dev = v; } c.okf(dev <= 1, "recenter:points", [&] { return w; });
    // batching
    size_t bs = 1 + r.below(40); auto bat = make_batcher(bs, gf); using T4 = std::array<F, 4>; std::vector<T4> u, v; for (size_t i = 0; i < gf.npts(); ++i) u.push_back({gf.points()[i][0], gf.points()[i][1], gf.points()[i][2], gf.weights()[i]});
    bool lim = true, box = true; for (auto it = bat.begin(); it != bat.end(); ++it) { auto [lo, up, p, ww] = *it; lim = lim && p.size() && p.size() <= bs && ww.size() == p.size(); std::array<F, 3> l = p.at(0), h = p.at(0); for (size_t i = 0; i < p.size(); ++i) { v.push_back({p[i][0], p[i][1], p[i][2], ww.at(i)}); for (int q = 0; q < 3; ++q) { l[q] = std::min(l[q], p[i][q]); h[q] = std::max(h[q], p[i][q]); } } box = box && l == lo && h == up; }
    std::sort(u.begin(), u.end()); std::sort(v.begin(), v.end()); c.okf(u == v, "batch:pairs", [&] { return w; }); c.okf(lim, "batch:size", [&] { return w; }); c.okf(box, "batch:box", [&] { return w; }); c.stat("batchers compared");
    // sub-range
    SubQuadrature<RT<F, F>> sub(std::make_pair(cut, n), rf); bool same = sub.npts() == n - cut; for (size_t i = cut; same && i < n; ++i) same = sub.points()[i - cut] == rf.points()[i] && sub.weights()[i - cut] == rf.weights()[i]; c.okf(same, "sub", [&] { return w; });
  }
};
static void transforms(Ctx& c) {
  const int N = c.thorough ? 30000 : 10000; const LD inf = INFINITY;
  for (int i = 0; i < N; ++i) if (c.begin(fmt("%s map #%d", FN, i))) c.guard([&] {
    Rng r = c.case_rng(); LD lo = (float)r.uni(-5, 5), up = lo + (float)r.uni(0.1, 9); up = (float)up; if (i % 4 == 1) up = inf; if (i % 4 == 2) lo = -inf; if (i % 4 == 3) { lo = -inf; up = inf; }
    LD x = (float)r.uni(-0.98, 0.98), w = (float)r.uni(0.01, 2);
    auto [pd, wd] = transform_minus_one_to_one<double, double>((double)lo, (double)up, (double)x, (double)w); auto [pf, wf] = transform_minus_one_to_one<F, F>((F)lo, (F)up, (F)x, (F)w);
    LD u = EC * 12 * (1 + 1 / (1 - x * x)); LD m = fabsl(pd) + (std::isinf((double)lo) ? 0 : fabsl(lo)) + (std::isinf((double)up) ? 0 : fabsl(up)) + 1;
    c.okf(fabsl(pf - (LD)pd) <= u * m && fabsl(wf - (LD)wd) <= u * fabsl(wd), "map", [&] { return fmt("%s [%Lg,%Lg] x=%.17Lg: %.17Lg %.17Lg, double %.17g %.17g", FN, lo, up, x, (LD)pf, (LD)wf, pd, wd); }); c.nontriv();
  });
}
static void composites(Ctx& c) {
  const int N = c.thorough ? 4000 : 1600;
  for (int i = 0; i < N; ++i) if (c.begin(fmt("%s grid #%d", FN, i))) c.guard([&] {
    Rng r = c.case_rng();
    switch (i % 4) { case 0: Comp<Becke, Womersley>::run(c, r, 0, 3); break; case 1: Comp<TreutlerAhlrichs, AhrensBeylkin>::run(c, r, 1, 2); break; case 2: Comp<MurrayHandyLaming, Delley>::run(c, r, 2, 1); break; default: Comp<MuraKnowles, LebedevLaikov>::run(c, r, 3, 0); }
  });
}
int main(int argc, char** argv) {
  Ctx c; c.init(argc, argv); if (c.prop != "C24") return 71;
  prims(c); radials(c); angulars(c); composites(c); transforms(c);
  return c.finish();
}
