// C01 Gauss-Legendre / Gauss-Lobatto, C02 Chebyshev rules, C03 trapezoid,
// C04 bound transformation.  Oracles are long double evaluations of the
// defining equations, never the library's own formulas.
#include "vcommon.hpp"
#include <integratorxx/quadratures/primitive.hpp>
#include <integratorxx/util/bound_transform.hpp>
using namespace IntegratorXX;
using LD = long double;
static const LD PIL = acosl(-1.0L);
static const LD EPS = 2.220446049250313e-16L;

// P_n and P_{n-1} at x
static inline void legendre(size_t n, LD x, LD& pn, LD& pm) {
  LD a = 1, b = 0; // P_0, P_-1
  for (size_t m = 1; m <= n; ++m) { LD c = ((2 * m - 1) * x * a - (m - 1) * b) / m; b = a; a = c; }
  pn = a; pm = b;
}

template <class P, class W>
static bool shape(Ctx& c, const char* fam, size_t n, const P& p, const W& w, double lo, double up, bool open, double slack = 0) {
  bool good = c.ok(p.size() == n && w.size() == n, "size", fmt("%s n=%zu: %zu points %zu weights", fam, n, p.size(), w.size()));
  if (!good) return false;
  for (size_t i = 0; i < n && good; ++i) {
    good = c.okf(std::isfinite(p[i]) && std::isfinite(w[i]), "finite", [&] { return fmt("%s n=%zu i=%zu x=%g w=%g", fam, n, i, p[i], w[i]); });
    good = good && c.okf(open && slack == 0 ? (p[i] > lo && p[i] < up) : (p[i] >= lo - slack && p[i] <= up + slack), "range", [&] { return fmt("%s n=%zu i=%zu x=%.17g", fam, n, i, p[i]); });
    if (i) good = good && c.okf(slack == 0 ? p[i] > p[i - 1] : p[i] >= p[i - 1] - slack, "order", [&] { return fmt("%s n=%zu i=%zu x=%.17g after %.17g", fam, n, i, p[i], p[i - 1]); });
    good = good && c.okf(w[i] > 0, "positive", [&] { return fmt("%s n=%zu i=%zu w=%.17g", fam, n, i, w[i]); });
  }
  return good;
}
template <class P, class W>
static void symmetric(Ctx& c, const char* fam, size_t n, const P& p, const W& w) {
  for (size_t i = 0; i < n / 2; ++i) {
    c.okf(fabsl((LD)p[i] + p[n - 1 - i]) <= 4 * EPS, "symmetry", [&] { return fmt("%s n=%zu i=%zu x=%.17g / %.17g", fam, n, i, p[i], p[n - 1 - i]); });
    c.okf(fabsl((LD)w[i] - w[n - 1 - i]) <= 1e-12L * fabsl(w[i]), "symmetry", [&] { return fmt("%s n=%zu i=%zu w=%.17g / %.17g", fam, n, i, w[i], w[n - 1 - i]); });
  }
}

// ------------------------------------------------------------------------ C01
template <class Q>
static void moments(Ctx& c, const char* fam, const Q& q, size_t n, size_t deg) {
  // sum_i w_i P_k(x_i) = 2 delta_k0 for every k <= deg
  std::vector<LD> a(n, 1), b(n, 0);
  const auto& x = q.points(); const auto& w = q.weights();
  LD worst = 0; size_t wk = 0;
  for (size_t k = 0; k <= deg; ++k) {
    LD s = 0;
    for (size_t i = 0; i < n; ++i) {
      if (k) { LD t = ((2 * k - 1) * (LD)x[i] * a[i] - (k - 1) * b[i]) / k; b[i] = a[i]; a[i] = t; }
      s += w[i] * a[i];
    }
    LD r = fabsl(s - (k == 0 ? 2 : 0)); if (!(r <= worst)) { worst = r; wk = k; }
    c.stat("moments checked");
  }
  LD tol = (40 + 2 * (LD)n) * EPS;
  c.peak(std::string(fam) + " moment error / tolerance", worst / tol);
  c.okf(worst <= tol, std::string("exactness:") + fam, [&] { return fmt("%s n=%zu: moment of degree %zu is off by %.3Lg", fam, n, wk, worst); });
}
static void c01_case(Ctx& c, size_t n, bool lob) {
  const char* fam = lob ? "lobatto" : "legendre";
  std::vector<double> x, w;
  bool mom = n <= (c.thorough ? 700 : 300) || n % 251 == 0;
  if (mom && n > 3000) mom = false;
  if (lob) { GaussLobatto<double, double> q(n); x = q.points(); w = q.weights(); if (mom) moments(c, fam, q, n, n >= 2 ? 2 * n - 3 : 0); }
  else { GaussLegendre<double, double> q(n); x = q.points(); w = q.weights(); if (mom) moments(c, fam, q, n, 2 * n - 1); }
  if (!shape(c, fam, n, x, w, -1, 1, !lob)) return;
  symmetric(c, fam, n, x, w);
  if (n % 2) c.ok(fabs(x[n / 2]) <= 1e-15, "symmetry", fmt("%s n=%zu middle %.17g", fam, n, x[n / 2]));
  if (lob) {
    LD we = 2.0L / ((LD)n * (n - 1));
    c.ok(x[0] == -1 && x[n - 1] == 1, "endpoints", fmt("n=%zu", n));
    c.ok(fabsl(w[0] - we) <= 8 * EPS * we && fabsl(w[n - 1] - we) <= 8 * EPS * we, "endpoints", fmt("n=%zu end weight %.17g", n, w[0]));
  }
  // n strictly increasing values, each within tolerance of a true node, and the
  // true nodes are refined from them: together they are all the nodes.
  LD sum = 0, px = -2; bool all = true;
  for (size_t i = 0; i < n; ++i) {
    sum += w[i];
    if (lob && (i == 0 || i == n - 1)) continue;
    if (n > 10000 && i >= 20 && i + 20 < n && i % (n / 200) != n / 400) continue; // a sample of the nodes of a huge rule
    LD z = x[i], a, b, wt, z1, z2;
    if (!lob) {
      legendre(n, z, a, b); LD d = n * (z * a - b) / (z * z - 1); z1 = z - a / d;
      legendre(n, z1, a, b); d = n * (z1 * a - b) / (z1 * z1 - 1); z2 = z1 - a / d;
      wt = 2 / ((1 - z1 * z1) * d * d);
    } else {
      // roots of P'_{n-1}: f = (z P_{n-1} - P_{n-2}), f' = n P_{n-1}
      legendre(n - 1, z, a, b); z1 = z - (z * a - b) / (n * a);
      legendre(n - 1, z1, a, b); z2 = z1 - (z1 * a - b) / (n * a);
      wt = 2 / ((LD)n * (n - 1) * a * a);
    }
    LD ex = fabsl(z - z2), ew = fabsl(w[i] - wt);
    LD tolx = 6 * EPS;
    // the weight inherits the node error amplified by d log w / dx ~ 2x/(1-x^2), and recursion rounding
    LD s2 = 1 - z2 * z2;
    LD tolw = 3 * wt * EPS * (100 + 4 * (LD)n + 8 / s2);
    c.peak(std::string(fam) + " node error / tolerance", ex / tolx);
    c.peak(std::string(fam) + " weight error / tolerance", ew / tolw);
    if (!c.okf(ex <= tolx, std::string("node:") + fam, [&] { return fmt("%s n=%zu i=%zu x=%.17g true %.20Lg err %.3Lg", fam, n, i, x[i], z2, ex); })) { all = false; break; }
    if (!c.okf(ew <= tolw, std::string("weight:") + fam, [&] { return fmt("%s n=%zu i=%zu w=%.17g true %.20Lg err %.3Lg", fam, n, i, w[i], wt, ew); })) { all = false; break; }
    if (!c.okf(z2 > px, "distinct", [&] { return fmt("%s n=%zu i=%zu", fam, n, i); })) break;
    px = z2;
    c.stat("nodes checked");
  }
  if (all) c.ok(fabsl(sum - 2) <= (20 + 0.1L * n) * EPS, "sum", fmt("%s n=%zu sum of weights %.20Lg", fam, n, sum));
}
static void c01(Ctx& c) {
  std::vector<size_t> ns = {46343, 46500}; // the square of the size exceeds 31 bits
  if (c.thorough) ns = {46343, 46500, 65600, 66001};
  size_t full = c.thorough ? 2600 : 1800;
  for (size_t n = 1; n <= full; ++n) ns.push_back(n);
  auto r = c.rng("c01");
  for (int i = 0; i < (c.thorough ? 60 : 14); ++i) ns.push_back(r.in(full + 1, c.thorough ? 9000 : 5000));
  for (size_t n : ns)
    for (int lob = 0; lob < 2; ++lob) {
      if (lob && n < 2) continue;
      if (!c.begin(fmt("%s n=%zu", lob ? "lobatto" : "legendre", n))) continue;
      if (n > 2) c.nontriv();
      c.guard([&] { c01_case(c, n, lob); });
    }
}
// ------------------------------------------------------------------------ C02
static void cheb(Ctx& c, const char* fam, size_t n, const std::vector<double>& x, const std::vector<double>& w, int kind) {
  // the modified rule clusters its ends as n^-5, below the spacing of doubles for large n
  if (!shape(c, fam, n, x, w, kind == 3 ? 0 : -1, 1, true, kind == 4 && n > 1000 ? 8e-16 : 0)) return;
  if (kind != 3) symmetric(c, fam, n, x, w);
  for (size_t i = 0; i < n; ++i) {
    LD xt, wt, atolw = 0, th, s;
    LD k = (LD)(n - i);
    if (kind == 1) { th = (2 * k - 1) * PIL / (2 * (LD)n); xt = cosl(th); wt = PIL / n * sinl(th); s = sinl(th); atolw = EPS * PIL / n * fabsl(xt) * 3 / s; }
    else if (kind == 2) { th = k * PIL / (n + 1); xt = cosl(th); wt = PIL / (n + 1) * sinl(th); s = sinl(th); atolw = EPS * PIL / (n + 1) * 3 / s; }
    else if (kind == 4) {
      th = k * PIL / (n + 1); s = sinl(th); LD co = cosl(th);
      xt = 1 - 2 * k / (n + 1) + 2 / PIL * (1 + 2 * s * s / 3) * co * s; wt = 16 * s * s * s * s / (3 * ((LD)n + 1));
      atolw = 16 * s * s * s * 4 / (3 * ((LD)n + 1)) * 16 * EPS;
    } else { th = (2 * k - 1) * PIL / (2 * (2 * (LD)n + 1)); LD co = cosl(th); xt = co * co; s = sinl(th); wt = 2 * PIL / (2 * (LD)n + 1) * co * s;
      LD h = 2 * PIL / (2 * (LD)n + 1); atolw = h * EPS * 4 * (1 / s + 1 / co) ; }
    LD ex = fabsl(x[i] - xt), ew = fabsl(w[i] - wt), tolx = (kind == 4 ? 12 : 8) * EPS, tolw = 30 * EPS * wt + atolw;
    c.peak(std::string(fam) + " node error / tolerance", ex / tolx);
    c.peak(std::string(fam) + " weight error / tolerance", ew / tolw);
    if (!c.okf(ex <= tolx, std::string("node:") + fam, [&] { return fmt("%s n=%zu i=%zu x=%.17g true %.20Lg", fam, n, i, x[i], xt); })) break;
    if (!c.okf(ew <= tolw, std::string("weight:") + fam, [&] { return fmt("%s n=%zu i=%zu w=%.17g true %.20Lg", fam, n, i, w[i], wt); })) break;
    c.stat("nodes checked");
  }
}
static void c02(Ctx& c) {
  std::vector<size_t> ns;
  for (size_t n = 0; n <= (c.thorough ? 6000u : 4000u); ++n) ns.push_back(n);
  auto r = c.rng("c02");
  for (size_t n : {32768, 46342, 65535, 65536, 65537, 100001, 262147}) ns.push_back(n);
  for (int i = 0; i < (c.thorough ? 400 : 60); ++i) ns.push_back((size_t)r.logu(2500, c.thorough ? 400000 : 60000));
  for (size_t n : ns)
    for (int kind = 1; kind <= 4; ++kind) {
      const char* nm[] = {"", "chebyshev1", "chebyshev2", "chebyshev3", "chebyshev2modified"};
      if (!c.begin(fmt("%s n=%zu", nm[kind], n))) continue;
      if (n > 1) c.nontriv();
      c.guard([&] {
        std::vector<double> x, w;
        if (kind == 1) { GaussChebyshev1<double, double> q(n); x = q.points(); w = q.weights(); }
        if (kind == 2) { GaussChebyshev2<double, double> q(n); x = q.points(); w = q.weights(); }
        if (kind == 3) { GaussChebyshev3<double, double> q(n); x = q.points(); w = q.weights(); }
        if (kind == 4) { GaussChebyshev2Modified<double, double> q(n); x = q.points(); w = q.weights(); }
        cheb(c, nm[kind], n, x, w, kind);
      });
    }
}
// ------------------------------------------------------------------------ C03
static void c03_case(Ctx& c, size_t n, double lo, double up) {
  std::vector<double> x, w;
  UniformTrapezoid<double, double> q(n, lo, up); x = q.points(); w = q.weights();
  if (!c.ok(x.size() == n && w.size() == n, "size", fmt("n=%zu", n))) return;
  LD h = ((LD)up - lo) / (n - 1), mag = std::max(fabsl(lo), fabsl(up)), sw = 0, sx = 0;
  LD dir = up >= lo ? 1 : -1;
  for (size_t i = 0; i < n; ++i) {
    LD xt = lo + i * h, wt = (i == 0 || i == n - 1) ? h / 2 : h;
    if (!c.okf(fabsl(x[i] - xt) <= 6 * EPS * (mag + fabsl((LD)up - lo)), "node", [&] { return fmt("n=%zu [%g,%g] i=%zu x=%.17g true %.20Lg", n, lo, up, i, x[i], xt); })) break;
    if (!c.okf(fabsl(w[i] - wt) <= 6 * EPS * fabsl(wt), "weight", [&] { return fmt("n=%zu [%g,%g] i=%zu w=%.17g true %.20Lg", n, lo, up, i, w[i], wt); })) break;
    if (i) c.okf(dir * ((LD)x[i] - x[i - 1]) >= 0, "order", [&] { return fmt("n=%zu i=%zu", n, i); });
    sw += w[i]; sx += (LD)w[i] * x[i];
    c.stat("nodes checked");
  }
  c.ok(x[0] == lo, "first", fmt("n=%zu lo=%.17g x0=%.17g", n, lo, x[0]));
  LD L = (LD)up - lo;
  c.ok(fabsl(sw - L) <= (20 * EPS + n * 2e-19L) * fabsl(L), "sum", fmt("n=%zu [%g,%g] sum %.20Lg", n, lo, up, sw));
  c.ok(fabsl(sx - L * ((LD)up + lo) / 2) <= (40 * EPS + n * 4e-19L) * fabsl(L) * (mag + fabsl(L)), "linear", fmt("n=%zu [%g,%g]: integral of x %.20Lg", n, lo, up, sx));
}
static void c03(Ctx& c) {
  auto r = c.rng("c03");
  for (size_t n = 2; n <= (c.thorough ? 10000u : 5000u); ++n) {
    if (c.begin(fmt("unit n=%zu", n))) { c.nontriv(); c.guard([&] { c03_case(c, n, 0, 1); }); }
    double lo = r.uni(-1, 1) * r.logu(1e-3, 1e4), up = lo + r.logu(1e-3, 1e4);
    if (n % 5 == 0) std::swap(lo, up);
    if (n % 7 == 0) { lo = -up; }
    if (n % 11 == 0) { lo = 0; up = std::fabs(up) + 1; }
    if (lo == up) up = lo + 1;
    if (c.begin(fmt("n=%zu [%.17g,%.17g]", n, lo, up))) { c.nontriv(); c.guard([&] { c03_case(c, n, lo, up); }); }
  }
  for (int i = 0; i < (c.thorough ? 20000 : 4000); ++i) { // intervals of every magnitude and orientation
    size_t n = r.coin() ? 2 + r.below(40) : (size_t)r.logu(2, 3000); auto any = [&] { return (r.coin() ? 1 : -1) * r.logu(1e-200, 1e200); };
    double lo = any(), up = any(); int k = (int)r.below(4);
    if (k == 0) lo = 0; if (k == 1) up = 0; if (k == 2) lo = -up; 
    if (r.coin(0.3)) { double s = r.logu(1e-30, 1e30); lo = lo == 0 ? 0 : r.uni(-1, 1) * s; up = up == 0 ? 0 : k == 2 ? -lo : r.uni(-1, 1) * s; }
    if (lo == up) up = lo + 1;
    if (c.begin(fmt("any magnitude n=%zu [%.17g,%.17g]", n, lo, up))) { c.nontriv(); c.stat("intervals of any magnitude"); c.guard([&] { c03_case(c, n, lo, up); }); }
  }
  for (int i = 0; i < (c.thorough ? 300 : 40); ++i) {
    size_t n = (size_t)r.logu(2500, 1e6); double lo = r.uni(-10, 10), up = lo + r.logu(0.1, 100);
    if (c.begin(fmt("n=%zu [%.17g,%.17g]", n, lo, up))) { c.nontriv(); c.guard([&] { c03_case(c, n, lo, up); }); }
  }
}
// ------------------------------------------------------------------------ C04
static void c04_point(Ctx& c, double lo, double up, double x, double w, double& px, double& py) {
  auto [y, v] = transform_minus_one_to_one(lo, up, x, w);
  const bool li = std::isinf(lo), ui = std::isinf(up);
  LD X = x, Y, J, ty;
  if (!li && !ui) { J = ((LD)up - lo) / 2; Y = J * X + ((LD)up + lo) / 2; ty = 8 * EPS * (fabsl(lo) + fabsl(up)); }
  else if (!li) { J = 2 / ((1 - X) * (1 - X)); Y = lo + (1 + X) / (1 - X); ty = 8 * EPS * (fabsl(lo) + fabsl((1 + X) / (1 - X))); }
  else if (!ui) { J = 2 / ((1 + X) * (1 + X)); Y = up - (1 - X) / (1 + X); ty = 8 * EPS * (fabsl(up) + fabsl((1 - X) / (1 + X))); }
  else { J = (1 + X * X) / ((1 - X * X) * (1 - X * X)); Y = X / (1 - X * X); ty = 8 * EPS * fabsl(Y); }
  // 1+-x is exact to half an ulp of 1: relative error eps/(1-|x|) when |x| -> 1 is not incurred (Sterbenz) except for 1-x*x
  LD amp = 1 + (li && ui ? 1 / (1 - X * X) : 0);
  c.okf(fabsl(y - Y) <= ty * amp + 1e-300L, "point", [&] { return fmt("[%g,%g] x=%.17g -> %.17g, documented map gives %.20Lg", lo, up, x, y, Y); });
  c.okf(fabsl(v - w * J) <= 20 * EPS * amp * fabsl(w * J), "jacobian", [&] { return fmt("[%g,%g] x=%.17g w=%.17g -> %.17g, derivative of the map gives %.20Lg", lo, up, x, w, v, w * J); });
  c.okf(y >= lo - (li ? 0 : ty) && y <= up + (ui ? 0 : ty), "range", [&] { return fmt("[%g,%g] x=%.17g -> %.17g", lo, up, x, y); });
  if (x > px) c.okf(y >= py - 2 * ty * amp, "order", [&] { return fmt("[%g,%g] x=%.17g -> %.17g after %.17g", lo, up, x, y, py); });
  px = x; py = y;
  c.stat("points mapped");
}
static void c04(Ctx& c) {
  auto r = c.rng("c04");
  const double inf = std::numeric_limits<double>::infinity();
  int N = c.thorough ? 100000 : 40000;
  for (int t = 0; t < N; ++t) {
    int kind = t % 4; double lo, up;
    double a = r.coin(0.2) ? 0.0 : r.uni(-1, 1) * r.logu(1e-6, 1e6);
    if (kind == 0) { lo = a; up = a + r.logu(1e-6, 1e6); if (r.coin(0.2)) { lo = -1; up = 1; } }
    else if (kind == 1) { lo = a; up = inf; } else if (kind == 2) { lo = -inf; up = a; } else { lo = -inf; up = inf; }
    if (t % 8 >= 6) { // magnitudes over the whole range of doubles
      auto any = [&] { return (r.coin() ? 1 : -1) * r.logu(1e-200, 1e200); };
      kind = (int)r.below(3); lo = any(); up = any(); if (r.coin(0.3)) up = -lo; if (r.coin(0.2)) lo = 0; if (lo > up) std::swap(lo, up);
      if (kind == 1) { lo = r.coin() ? lo : up; up = inf; } if (kind == 2) { up = r.coin() ? lo : up; lo = -inf; }
      c.stat("intervals of extreme magnitude");
    }
    if (!(lo < up)) up = lo + (lo == 0 ? 1 : std::fabs(lo));
    if (!c.begin(fmt("map kind=%d lo=%.17g up=%.17g #%d", kind, lo, up, t))) continue;
    c.nontriv(fmt("%d %.17g %.17g", kind, lo, up));
    c.guard([&] {
      auto q = c.case_rng();
      std::vector<double> xs; int m = 24;
      for (int i = 0; i < m; ++i) { double x = q.uni(-1, 1); if (q.coin(0.15)) x = 0; if (q.coin(0.2)) x = (q.coin() ? 1 : -1) * (1 - q.logu(1e-12, 1e-1)); xs.push_back(x); }
      if (kind == 0) { xs.push_back(-1); xs.push_back(1); }
      if (kind == 1) xs.push_back(-1);
      if (kind == 2) xs.push_back(1);
      std::sort(xs.begin(), xs.end());
      double px = -2, py = -std::numeric_limits<double>::infinity(); for (double x : xs) c04_point(c, lo, up, x, q.coin(0.1) ? 0.0 : q.logu(1e-8, 1e2), px, py);
    });
  }
  // whole rules pushed through the map integrate known functions on the target
  for (size_t n = 60; n <= (c.thorough ? 220u : 120u); n += 4)
    for (int kind = 0; kind < 4; ++kind) {
      if (!c.begin(fmt("integral kind=%d n=%zu", kind, n))) continue;
      c.nontriv();
      c.guard([&] {
        auto g = c.case_rng(); double a = g.uni(-3, 3), lo = a, up = a + g.uni(0.5, 4);
        if (kind == 1) { up = inf; }
        if (kind == 2) { up = a; lo = -inf; }
        if (kind == 3) { lo = -inf; up = inf; }
        GaussLegendre<double, double> q(n); LD s = 0, exact;
        for (size_t i = 0; i < n; ++i) { auto [y, v] = transform_minus_one_to_one(lo, up, q.points()[i], q.weights()[i]);
          LD f = kind == 0 ? cosl(y) : kind == 1 ? expl(-((LD)y - a)) : kind == 2 ? expl((LD)y - a) : expl(-(LD)y * y); s += v * f; }
        exact = kind == 0 ? sinl(up) - sinl(lo) : kind == 3 ? sqrtl(PIL) : 1;
        c.peak("integral error", fabsl(s - exact));
        c.ok(fabsl(s - exact) < 1e-7L, "integral", fmt("kind %d n=%zu [%g,%g] integral %.15Lg exact %.15Lg", kind, n, lo, up, s, exact));
      });
    }
}
int main(int argc, char** argv) {
  Ctx c; c.init(argc, argv);
  if (c.prop == "C01") c01(c); else if (c.prop == "C02") c02(c); else if (c.prop == "C03") c03(c); else if (c.prop == "C04") c04(c); else return 71;
  return c.finish();
}
