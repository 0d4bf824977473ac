// C05 radial rules are the documented image of their base rule, C06 what users
// rely on: increasing positive radii, positive weights, scaling, convergence.
#include "vcommon.hpp"
#include <integratorxx/quadratures/radial.hpp>
#include <integratorxx/quadratures/primitive.hpp>
using namespace IntegratorXX;
using LD = long double;
static const LD PIL = acosl(-1.0L);
static const LD EPS = 2.220446049250313e-16L;
static const LD LN2 = logl(2.0L);
enum Kind { BK, TA, MHL, MK };
static const char* NM[] = {"becke", "treutlerahlrichs", "murrayhandylaming", "muraknowles"};
using PW = std::pair<std::vector<double>, std::vector<double>>;
template <class Q> static PW pw(const Q& q) { return {q.points(), q.weights()}; }

// route 0: (npts,R[,alpha]) 1: concrete traits 2: traits through the base class
// 3: clone of the traits 4: copy of the quadrature 5: moved quadrature
template <class Q, class T> static PW via(const T& t, int route) {
  if (route == 1) return pw(Q(t));
  if (route == 2) { const RadialTraits& b = t; return pw(Q(b)); }
  if (route == 3) { std::unique_ptr<RadialTraits> p = t.clone(); const RadialTraits& b = *p; return pw(Q(b)); }
  if (route == 4) { Q a(t); Q b(a); a.points().assign(a.npts(), -1); return pw(b); }
  Q a(t); Q b(std::move(a)); return pw(b);
}
static PW make(Kind k, size_t n, double R, double al, int route) {
  using namespace IntegratorXX;
  if (route == 0) {
    if (k == BK) return pw(Becke<double, double>(n, R));
    if (k == TA) return pw(TreutlerAhlrichs<double, double>(n, R, al));
    if (k == MHL) return pw(MurrayHandyLaming<double, double>(n, R));
    return pw(MuraKnowles<double, double>(n, R));
  }
  if (k == BK) return via<Becke<double, double>>(BeckeRadialTraits(n, R), route);
  if (k == TA) return via<TreutlerAhlrichs<double, double>>(TreutlerAhlrichsRadialTraits(n, R, al), route);
  if (k == MHL) return via<MurrayHandyLaming<double, double>>(MurrayHandyLamingRadialTraits<2>(n, R), route);
  return via<MuraKnowles<double, double>>(MuraKnowlesRadialTraits(n, R), route);
}
static PW make_default(Kind k, size_t n) { // defaults: R = 1, alpha = 0.6
  if (k == BK) return pw(Becke<double, double>(BeckeRadialTraits(n)));
  if (k == TA) return pw(TreutlerAhlrichs<double, double>(TreutlerAhlrichsRadialTraits(n)));
  if (k == MHL) return pw(MurrayHandyLaming<double, double>(MurrayHandyLamingRadialTraits<2>(n)));
  return pw(MuraKnowles<double, double>(MuraKnowlesRadialTraits(n)));
}

static void c05_case(Ctx& c, Kind k, size_t n, double R, double al, const PW& q) {
  const auto& [p, w] = q;
  if (!c.ok(p.size() == n && w.size() == n, "size", fmt("%s n=%zu: %zu/%zu", NM[k], n, p.size(), w.size()))) return;
  for (size_t i = 0; i < n; ++i) {
    LD r, J, bw, ax = 0, tr, tj;
    if (k == BK || k == TA) {
      LD th = (LD)(n - i) * PIL / (n + 1), x = cosl(th);
      LD opx = 2 * sinl((PIL - th) / 2) * sinl((PIL - th) / 2), omx = 2 * sinl(th / 2) * sinl(th / 2); // 1+x, 1-x without cancellation
      bw = PIL / (n + 1) * sinl(th);
      ax = 1 / opx + 1 / omx;
      if (k == BK) { r = R * opx / omx; J = R * 2 / (omx * omx); tr = r * EPS * (20 + 3 * ax); tj = 3 * tr / r; }
      else {
        LD pt = powl(opx, al), lt = -log1pl(-opx / 2); // log(2/(1-x))
        r = R * pt * lt / LN2; J = R * pt / LN2 * (al * lt / opx + 1 / omx);
        tr = r * EPS * (20 + (4 + 2 * fabs(al)) * ax); tj = EPS * (40 + (8 + 4 * fabs(al)) * ax);
      }
    } else {
      LD x = (LD)(i + 1) / (n + 1), omx = (LD)(n - i) / (n + 1); bw = 1 / ((LD)n + 1); ax = 1 / omx;
      if (k == MHL) { r = R * (x / omx) * (x / omx); J = R * 2 * x / (omx * omx * omx); tr = r * EPS * (20 + 6 * ax); tj = EPS * (30 + 10 * ax); }
      else { LD om3 = omx * (1 + x + x * x); r = -R * log1pl(-x * x * x); J = R * 3 * x * x / om3; tr = r * EPS * (20 + 6 * ax) + std::min(3 * EPS * R, 1e-7L * r); tj = EPS * (30 + 10 * ax); }
    }
    LD er = fabsl(p[i] - r), W = bw * J, ew = fabsl(w[i] - W);
    c.peak(std::string(NM[k]) + " radius error / tolerance", er / tr);
    c.peak(std::string(NM[k]) + " weight error / tolerance", ew / (W * tj));
    tr *= 3; tj *= 3;
    if (!c.okf(er <= tr, std::string("radius:") + NM[k], [&] { return fmt("%s n=%zu R=%.17g alpha=%g i=%zu r=%.17g, documented map %.20Lg", NM[k], n, R, al, i, p[i], r); })) return;
    if (!c.okf(ew <= W * tj + (k < 2 ? 3 * EPS * W * ax : 0), std::string("weight:") + NM[k], [&] { return fmt("%s n=%zu R=%.17g alpha=%g i=%zu w=%.17g, weight*dr/dx %.20Lg", NM[k], n, R, al, i, w[i], W); })) return;
    c.stat("radial points checked");
  }
}
// The documented maps and their derivatives, on the traits themselves, at any
// abscissa and for every Murray-Handy-Laming exponent.
static void map_point(Ctx& c, const char* nm, double x, double got_r, double got_j, LD r, LD J, LD tr, LD tj) {
  c.okf(fabsl(got_r - r) <= tr, std::string("map:") + nm, [&] { return fmt("%s x=%.17g: radius %.17g, documented map %.20Lg", c.cur.c_str(), x, got_r, r); });
  c.okf(fabsl(got_j - J) <= tj * fabsl(J), std::string("jacobian:") + nm, [&] { return fmt("%s x=%.17g: jacobian %.17g, derivative of the map %.20Lg", c.cur.c_str(), x, got_j, J); });
  c.stat("abscissas mapped");
}
template <size_t M> static void mhl_maps(Ctx& c, Rng& g, size_t n, double R) {
  MurrayHandyLamingRadialTraits<M> t(n, R); c.ok(t.npts() == n, "npts", c.cur);
  for (int i = 0; i < 24; ++i) {
    double x = g.coin(0.3) ? 1 - g.logu(1e-9, 0.1) : g.coin(0.2) ? g.logu(1e-9, 0.1) : g.uni(0.001, 0.999); LD X = x, o = 1 - X, r = R * powl(X / o, M), J = R * M * powl(X, (int)M - 1) / powl(o, M + 1);
    map_point(c, "murrayhandylaming", x, t.radial_transform(x), t.radial_jacobian(x), r, J, r * EPS * (10 + 8 * M) , EPS * (20 + 16 * M));
  }
  using Q = RadialTransformQuadrature<UniformTrapezoid<double, double>, MurrayHandyLamingRadialTraits<M>>;
  Q q = g.coin() ? Q(t) : Q(n, R);
  if (!c.ok(q.npts() == n && q.weights().size() == n, "size", c.cur)) return;
  for (size_t i = 0; i < n; ++i) {
    LD x = (LD)(i + 1) / (n + 1), o = (LD)(n - i) / (n + 1), r = R * powl(x / o, M), w = R * M * powl(x, (int)M - 1) / powl(o, M + 1) / ((LD)n + 1), e = EPS * (40 + 12 * (M + 1) / o);
    if (!c.okf(fabsl(q.points()[i] - r) <= e * r && fabsl(q.weights()[i] - w) <= e * w, "radius:mhl", [&] { return fmt("M=%zu n=%zu R=%.17g i=%zu: %.17g, %.17g; documented map %.20Lg, %.20Lg", M, n, R, i, q.points()[i], q.weights()[i], r, w); })) return;
  }
}
static void maps(Ctx& c, Rng& g, Kind k, size_t n, double R, double al) {
  if (k == MHL) { switch (g.below(5)) { case 0: mhl_maps<1>(c, g, n, R); break; case 1: mhl_maps<2>(c, g, n, R); break; case 2: mhl_maps<3>(c, g, n, R); break; case 3: mhl_maps<4>(c, g, n, R); break; default: mhl_maps<6>(c, g, n, R); } return; }
  for (int i = 0; i < 24; ++i) {
    double x = k == MK ? (g.coin(0.3) ? 1 - g.logu(1e-9, 0.1) : g.coin(0.3) ? g.logu(1e-9, 0.1) : g.uni(0.01, 0.999)) : g.coin(0.3) ? (g.coin() ? 1 : -1) * (1 - g.logu(1e-9, 0.1)) : g.uni(-0.999, 0.999);
    LD X = x, opx = 1 + X, omx = 1 - X, r, J;
    if (k == BK) { BeckeRadialTraits t(n, R); r = R * opx / omx; J = R * 2 / (omx * omx); map_point(c, NM[k], x, t.radial_transform(x), t.radial_jacobian(x), r, J, 20 * EPS * r, 20 * EPS); }
    else if (k == MK) { MuraKnowlesRadialTraits t(n, R); LD om3 = omx * (1 + X + X * X), amp = 1 / om3; r = -R * log1pl(-X * X * X); J = R * 3 * X * X / om3; map_point(c, NM[k], x, t.radial_transform(x), t.radial_jacobian(x), r, J, EPS * 20 * r + std::min(8 * EPS * R * amp, 1e-6L * r), EPS * (20 + 8 * amp)); }
    else { TreutlerAhlrichsRadialTraits t(n, R, al); LD pt = powl(opx, al), lt = -log1pl(-opx / 2); r = R * pt * lt / LN2; J = R * pt / LN2 * (al * lt / opx + 1 / omx); LD a = R * pt / LN2;
      map_point(c, NM[k], x, t.radial_transform(x), t.radial_jacobian(x), r, J, EPS * (40 * r + 8 * a), EPS * (60 + 8 * a * fabs(al) / opx / J)); }
  }
}
// A radial rule made of any base rule and any map, the user's own included
struct UserMap : RadialTraits { // r = c (x + 3)^3, default constructible
  size_t n_; double c_; int tag_ = 7;
  UserMap(size_t n = 9, double c = 0.5) : n_(n), c_(c) {}
  size_t npts() const override { return n_; }
  std::unique_ptr<RadialTraits> clone() const override { return std::make_unique<UserMap>(*this); }
  bool compare(const RadialTraits& o) const noexcept override { auto p = dynamic_cast<const UserMap*>(&o); return p && p->n_ == n_ && p->c_ == c_; }
  template <class P> P radial_transform(P x) const noexcept { return c_ * (x + 3) * (x + 3) * (x + 3); }
  template <class P> P radial_jacobian(P x) const noexcept { return 3 * c_ * (x + 3) * (x + 3); }
};
template <class Base, class T> static void compose(Ctx& c, const char* nm, const T& t, int route) {
  using Q = RadialTransformQuadrature<Base, T>; using BT = quadrature_traits<Base>; const bool cut = BT::bound_inclusive; const size_t n = t.npts();
  PW q = route == 5 ? pw(Q(static_cast<const RadialTraits&>(*t.clone()))) : route == 0 ? pw(Q(t)) : via<Q>(t, route);
  auto [bx, bw] = BT::generate(n + 2 * cut);
  if (!c.okf(q.first.size() == n && q.second.size() == n && bx.size() == n + 2 * cut, "size", [&] { return c.cur; })) return;
  for (size_t i = 0; i < n; ++i) {
    double x = bx[i + cut], w = bw[i + cut], r = t.radial_transform(x), j = t.radial_jacobian(x);
    if (!c.okf(fabsl((LD)q.first[i] - r) <= 4 * EPS * fabsl(r) && fabsl((LD)q.second[i] - (LD)w * j) <= 6 * EPS * fabsl((LD)w * j), "composition", [&] { return fmt("%s over %s, node %zu of %zu: (%.17g, %.17g), expected (%.17g, %.17g)", c.cur.c_str(), nm, i, n, q.first[i], q.second[i], r, w * j); })) return;
  }
  c.stat("rules composed of other parts");
}
template <class T> static void compose_all(Ctx& c, Rng& g, const T& t, bool unit) {
  using D = double; int route = (int)g.below(6);
  if (unit) compose<UniformTrapezoid<D, D>>(c, "UniformTrapezoid", t, route); else compose<GaussChebyshev2<D, D>>(c, "GaussChebyshev2", t, route); // maps of (0,1) take rules on (0,1)
}
static void compositions(Ctx& c, Rng& g) {
  size_t n = g.coin(0.2) ? g.below(3) : g.below(90); double R = g.logu(1e-3, 1e3), al = g.coin(0.3) ? g.uni(2, 8) : g.uni(0, 2);
  switch (g.below(6)) {
    case 0: compose_all(c, g, BeckeRadialTraits(n, R), false); break; case 1: compose_all(c, g, TreutlerAhlrichsRadialTraits(n, R, al), false); break;
    case 2: compose_all(c, g, MurrayHandyLamingRadialTraits<3>(n, R), true); break; case 3: compose_all(c, g, MuraKnowlesRadialTraits(n, R), true); break;
    case 4: compose_all(c, g, UserMap(n, R), g.coin()); break;
    default: { using Q = RadialTransformQuadrature<GaussChebyshev2<double, double>, UserMap>; Q q; PW a = pw(q), b = pw(Q(UserMap(9, 0.5))), e = pw(Q((size_t)9, 0.5)); c.okf(q.npts() == 9 && same_vec(a.first, b.first) && same_vec(a.second, b.second) && same_vec(a.first, e.first) && same_vec(a.second, e.second), "composition", [&] { return c.cur + ": default parameters"; }); }
  }
}
static double pickR(Rng& r) { static const double t[] = {1, 0.5, 2, 1.0, 7, 0.25, 5.0, 100, 1e-3}; return r.coin(0.4) ? t[r.below(9)] : r.logu(1e-4, 1e4); }
static double pickA(Rng& r) { static const double t[] = {0.6, 0.0, 0.6, 1.0, 0.5}; return r.coin(0.5) ? t[r.below(5)] : r.coin(0.2) ? r.uni(2, 8) : r.coin(0.1) ? r.uni(-0.5, 0) : r.uni(0, 2); }
static void c05(Ctx& c) {
  auto r = c.rng("c05");
  std::vector<size_t> ns; for (size_t n = 1; n <= (c.thorough ? 3000u : 1200u); ++n) ns.push_back(n);
  for (int i = 0; i < (c.thorough ? 200 : 40); ++i) ns.push_back((size_t)r.logu(1200, 50000));
  for (size_t n : {32769, 46342, 65535, 65537, 100003, 300007, 1000003}) ns.push_back(n);
  for (size_t n : ns)
    for (int k = 0; k < 4; ++k) {
      if (c.begin(fmt("%s n=%zu default", NM[k], n))) { if (n > 1) c.nontriv(); c.guard([&] { c05_case(c, Kind(k), n, 1.0, 0.6, make_default(Kind(k), n)); }); }
      for (int rep = 0; rep < 2; ++rep) {
        double R = pickR(r), al = k == TA ? pickA(r) : 0; int route = (int)((n + rep * 3 + k) % 6);
        if (!c.begin(fmt("%s n=%zu R=%.17g alpha=%.17g route=%d", NM[k], n, R, al, route))) continue;
        if (n > 1) c.nontriv();
        c.stat(fmt("constructed by route %d", route));
        c.guard([&] { c05_case(c, Kind(k), n, R, al, make(Kind(k), n, R, al, route)); });
      }
    }
  for (int i = 0; i < (c.thorough ? 20000 : 6000); ++i) {
    Kind k = Kind(i % 4); size_t n = (size_t)r.logu(1, 300); double R = r.coin(0.1) ? r.logu(1e-250, 1e250) : pickR(r), al = pickA(r); if (r.coin(0.15)) al = r.logu(1e-6, 0.1);
    if (!c.begin(fmt("maps %s n=%zu R=%.17g alpha=%.17g", NM[k], n, R, al))) continue;
    c.nontriv();
    c.guard([&] { auto g = c.case_rng(); maps(c, g, k, n, R, al); });
  }
  for (int i = 0; i < (c.thorough ? 30000 : 10000); ++i) if (c.begin(fmt("composition #%d", i))) { c.nontriv(); c.guard([&] { auto g = c.case_rng(); compositions(c, g); }); }
  for (int k = 0; k < 4; ++k) if (c.begin(fmt("%s n=0", NM[k]))) c.guard([&] { auto q = make_default(Kind(k), 0); c.ok(q.first.empty() && q.second.empty(), "size", "n=0"); });
}
// ------------------------------------------------------------------------ C06
// integrands in units of the rule's length scale R; f(s,u), exact(s)
static LD f0(LD s, LD u) { return u * u * expl(-s * u * u); }     // sqrt(pi)/4 s^-3/2
static LD f1(LD s, LD u) { return u * u * expl(-s * u); }         // 2/s^3
static LD f2(LD s, LD u) { return u * u * u * u * expl(-s * u); } // 24/s^5
static LD exact(int f, LD s) { return f == 0 ? sqrtl(PIL) / 4 / powl(s, 1.5L) : f == 1 ? 2 / (s * s * s) : 24 / powl(s, 5); }
static void c06(Ctx& c) {
  auto r = c.rng("c06");
  size_t top = c.thorough ? 2500 : 1500;
  std::vector<size_t> sizes; for (size_t n = 1; n <= top; ++n) sizes.push_back(n);
  for (int i = 0; i < (c.thorough ? 120 : 24); ++i) sizes.push_back((size_t)r.logu(top, 60000));
  for (size_t n : {32769, 65537, 100003, 300007, 1000003}) sizes.push_back(n);
  for (int wide = 0; wide < 2; ++wide) // second round: any scale and exponent, order, sign and scaling only
  for (size_t n : sizes)
    for (int k = 0; k < 4; ++k) {
      if (wide && n > 3000) continue;
      double R = wide && r.coin(0.3) ? r.logu(1e-250, 1e250) : pickR(r), al = k == TA ? wide ? pickA(r) : (n % 3 ? 0.6 : r.uni(0, 1)) : 0; int route = (int)((n + k) % 6);
      if (!c.begin(fmt("%s n=%zu R=%.17g alpha=%.17g route=%d", NM[k], n, R, al, route))) continue;
      c.nontriv();
      c.guard([&] {
        auto g = c.case_rng();
        auto [p, w] = make(Kind(k), n, R, al, route);
        if (!c.ok(p.size() == n && w.size() == n, "size", "")) return;
        for (size_t i = 0; i < n; ++i) {
          if (!c.okf(std::isfinite(p[i]) && std::isfinite(w[i]), "finite", [&] { return fmt("%s n=%zu R=%g i=%zu r=%g w=%g", NM[k], n, R, i, p[i], w[i]); })) return;
          if (!c.okf(p[i] > 0 && w[i] > 0, "positive", [&] { return fmt("%s n=%zu R=%g i=%zu r=%g w=%g", NM[k], n, R, i, p[i], w[i]); })) return;
          if (i && !c.okf(p[i] > p[i - 1], "order", [&] { return fmt("%s n=%zu R=%g i=%zu r=%.17g after %.17g", NM[k], n, R, i, p[i], p[i - 1]); })) return;
        }
        c.stat("radial points checked", n);
        // length scale: points and weights are proportional to R
        double s = g.coin(0.3) ? 2.0 : g.logu(1e-2, 1e2);
        auto [p2, w2] = make(Kind(k), n, R * s, al, (route + 1) % 6);
        if (!c.ok(p2.size() == n && w2.size() == n, "size", "")) return;
        for (size_t i = 0; i < n; ++i) {
          LD t = (LD)(R * s) / R;
          if (!c.okf(fabsl(p2[i] - t * p[i]) <= 40 * EPS * p2[i] && fabsl(w2[i] - t * w[i]) <= 40 * EPS * w2[i], "scaling", [&] { return fmt("%s n=%zu R=%g -> %g i=%zu r %.17g -> %.17g w %.17g -> %.17g", NM[k], n, R, R * s, i, p[i], p2[i], w[i], w2[i]); })) return;
        }
        // convergence on decaying integrands of the rule's own length scale
        if (wide) return;
        for (int f = 0; f < 3; ++f) {
          LD sg = g.uni(0.7, 1.4), sum = 0;
          // logarithmic maps (TA, MK) reach r ~ R log n only: use integrands that decay within that range
          if (k == TA && f > 0) sg *= 5;
          if (k == MK) sg *= f ? 12 : 4;
          for (size_t i = 0; i < n; ++i) { LD u = (LD)p[i] / R; LD v = f == 0 ? f0(sg, u) : f == 1 ? f1(sg, u) : f2(sg, u); sum += (LD)w[i] / R * v; }
          LD e = fabsl(sum / exact(f, sg) - 1);
          // geometric (Becke, TA) or high algebraic (MHL, MK on r^2 f) convergence; envelope measured with 100x slack
          int band = n < 30 ? -1 : n < 60 ? 30 : n < 100 ? 60 : n < 200 ? 100 : n < 400 ? 200 : 400;
          if (band < 0) continue;
          c.peak(fmt("%s f%d rel. error for n >= %d", NM[k], f, band), e);
          LD tol = 1;
#include "c06_tol.inc"
          c.okf(e <= tol, std::string("integral:") + NM[k], [&] { return fmt("%s n=%zu R=%g alpha=%g f%d scale %.3Lg: relative error %.3Lg > %.3Lg", NM[k], n, R, al, f, sg, e, tol); });
          c.stat("integrals checked");
        }
      });
    }
}
int main(int argc, char** argv) {
  Ctx c; c.init(argc, argv);
  if (c.prop == "C05") c05(c); else if (c.prop == "C06") c06(c); else return 71;
  return c.finish();
}
