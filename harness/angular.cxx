// C07 angular rules integrate spherical harmonics, C08 order/size look-ups,
// C10 symmetry of the point sets.
#include "vcommon.hpp"
#include <integratorxx/quadratures/s2.hpp>
using namespace IntegratorXX;
using LD = long double;
using P3 = std::array<double, 3>;
static const LD PIL = acosl(-1.0L);

struct Fam {
  const char* name; int kind; int64_t top; // no order above `top` is probed
  int64_t (*npts)(int64_t); int64_t (*order)(int64_t); int64_t (*next)(int64_t);
  void (*make)(size_t, std::vector<P3>&, std::vector<double>&, int route);
};
template <class Q> static void make(size_t n, std::vector<P3>& p, std::vector<double>& w, int route) {
  if (route == 0) { Q q(n); p = q.points(); w = q.weights(); }
  else if (route == 1) { Q a(n); Q b(a); a.weights().assign(a.npts(), 7.0); p = b.points(); w = b.weights(); }
  else if (route == 2) { Q a(n); Quadrature<Q> b(a); p = b.points(); w = b.weights(); }
  else { Q a(n); Q b(std::move(a)); p = b.points(); w = b.weights(); }
}
template <class Q> static Fam fam(const char* nm, int kind, int64_t top) {
  using T = quadrature_traits<Q>;
  return {nm, kind, top, [](int64_t o) -> int64_t { return T::npts_by_algebraic_order(o); }, [](int64_t s) -> int64_t { return T::algebraic_order_by_npts(s); }, [](int64_t o) -> int64_t { return T::next_algebraic_order(o); }, &make<Q>};
}
// sizes of the published families: these stay available
static const std::vector<Fam>& fams() {
  static const std::vector<Fam> f = {fam<LebedevLaikov<double>>("lebedev", 0, 400), fam<Delley<double>>("delley", 1, 400), fam<AhrensBeylkin<double>>("ahrens", 2, 400), fam<Womersley<double>>("womersley", 3, 600)};
  return f;
}

// max over l <= L, |m| <= l of | sum_i w_i Y_lm(x_i) - sqrt(4 pi) delta_l0 |, per l
static std::vector<LD> residuals(const std::vector<P3>& p, const std::vector<double>& w, int L, const LD R[3][3]) {
  const size_t n = p.size();
  std::vector<LD> res(L + 1, 0), z(n), x(n), y(n), re(n, 1), im(n, 0);
  for (size_t i = 0; i < n; ++i) {
    LD v[3]; for (int a = 0; a < 3; ++a) v[a] = R[a][0] * p[i][0] + R[a][1] * p[i][1] + R[a][2] * p[i][2];
    x[i] = v[0]; y[i] = v[1]; z[i] = v[2];
  }
  LD nmm = 1 / sqrtl(4 * PIL);
  std::vector<LD> a(L + 2), b(L + 2);
  std::vector<LD> sr, si;
  for (int m = 0; m <= L; ++m) {
    if (m) nmm *= sqrtl((2 * m + 1) / (LD)(2 * m));
    for (int l = m + 1; l <= L; ++l) { a[l] = sqrtl((4 * (LD)l * l - 1) / ((LD)l * l - (LD)m * m)); b[l] = l > m + 1 ? sqrtl((((LD)l - 1) * (l - 1) - (LD)m * m) / (4 * ((LD)l - 1) * (l - 1) - 1)) : 0; }
    sr.assign(L + 1, 0); si.assign(L + 1, 0);
    for (size_t i = 0; i < n; ++i) {
      if (m) { LD t = re[i] * x[i] - im[i] * y[i]; im[i] = re[i] * y[i] + im[i] * x[i]; re[i] = t; }
      const LD cr = w[i] * re[i], ci = w[i] * im[i];
      LD p0 = 0, p1 = nmm; sr[m] += cr * p1; si[m] += ci * p1;
      for (int l = m + 1; l <= L; ++l) { LD t = a[l] * (z[i] * p1 - b[l] * p0); p0 = p1; p1 = t; sr[l] += cr * t; si[l] += ci * t; }
    }
    const LD f = m ? sqrtl(2.0L) : 1;
    for (int l = m; l <= L; ++l) {
      LD r = fabsl(f * sr[l] - (l == 0 ? sqrtl(4 * PIL) : 0)), s = m ? fabsl(f * si[l]) : 0;
      if (!(r <= res[l])) res[l] = r; if (!(s <= res[l])) res[l] = s;
    }
  }
  return res;
}
static void rotation(Rng& g, LD R[3][3]) { // from a random unit quaternion
  LD q[4], s = 0; do { s = 0; for (auto& v : q) { v = g.uni(-1, 1); s += v * v; } } while (s > 1 || s < 0.01L);
  for (auto& v : q) v /= sqrtl(s);
  LD w = q[0], x = q[1], y = q[2], z = q[3];
  LD M[3][3] = {{1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)}, {2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)}, {2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)}};
  memcpy(R, M, sizeof M);
}
static bool basic(Ctx& c, const Fam& f, size_t n, const std::vector<P3>& p, const std::vector<double>& w) {
  if (!c.ok(p.size() == n && w.size() == n, "size", fmt("%s %zu: %zu points, %zu weights", f.name, n, p.size(), w.size()))) return false;
  LD sum = 0, worst = 0;
  for (size_t i = 0; i < n; ++i) {
    LD s = 0; for (double v : p[i]) s += (LD)v * v;
    LD d = fabsl(sqrtl(s) - 1); if (!(d <= worst)) worst = d;
    if (!c.okf(std::isfinite(w[i]), "finite", [&] { return fmt("%s %zu i=%zu", f.name, n, i); })) return false;
    sum += w[i];
  }
  c.peak("largest | |x| - 1 |", worst);
  c.okf(worst <= 1e-15L, fmt("norm:%s", f.name), [&] { return fmt("%s %zu: a point is %.3Lg off the unit sphere", f.name, n, worst); });
  c.okf(fabsl(sum - 4 * PIL) <= 2e-13L, fmt("sum:%s", f.name), [&] { return fmt("%s %zu: weights add up to %.20Lg", f.name, n, sum); });
  c.peak("largest | sum w - 4 pi |", fabsl(sum - 4 * PIL));
  c.stat("points seen", n);
  return true;
}
static void c07(Ctx& c) {
  for (auto& f : fams())
    for (int64_t o = f.top; o >= 0; --o) {
      int64_t n = f.npts(o);
      if (n <= 0) continue;
      const int reps = c.thorough ? 3 : 1;
      for (int rep = 0; rep < reps; ++rep) {
        if (!c.begin(fmt("%s order=%lld npts=%lld%s", f.name, (long long)o, (long long)n, rep ? fmt(" rotated %d", rep).c_str() : ""))) continue;
        if (o > 1) c.nontriv();
        c.guard([&] {
          auto g = c.case_rng();
          std::vector<P3> p; std::vector<double> w;
          f.make(n, p, w, (int)((o + rep) % 4));
          if (!basic(c, f, n, p, w)) return;
          // quick: the frame of the table for one half of the seeds, a rotated one otherwise
          LD R[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
          if (rep) rotation(g, R);
          auto r = residuals(p, w, (int)o, R);
          LD worst = 0; int at = 0;
          for (int l = 0; l <= o; ++l) if (!(r[l] <= worst)) { worst = r[l]; at = l; }
          // the tables carry 12 to 16 digits
          LD tol = f.kind != 2 ? 8e-14L : o > 110 ? 8e-12L : 1.5e-12L;
          bool known = f.kind == 2 && n == 5472 && worst > tol && worst <= 6e-5L;
          if (!known) c.peak(fmt("%s largest residual / tolerance", f.name), worst / tol);
          c.okf(worst <= tol, known ? "exactness:ahrens:5472" : fmt("exactness-beyond:%s:%lld", f.name, (long long)n), [&] { return fmt("%s npts=%lld order=%lld: a spherical harmonic of degree %d integrates to %.3Lg instead of 0 (or sqrt(4 pi))", f.name, (long long)n, (long long)o, at, worst); });
          c.stat("harmonics integrated", (o + 1) * (o + 1));
        });
      }
    }
}
static void c08(Ctx& c) {
  static const std::vector<std::vector<int>> published = {
#include "published_sizes.inc"
  };
  for (auto& f : fams()) {
    std::vector<int64_t> orders; for (int64_t o = -50; o <= 1200; ++o) if (f.npts(o) >= 0) orders.push_back(o);
    if (c.begin(fmt("%s published sizes", f.name))) { c.nontriv(); c.guard([&] { for (int n : published[f.kind]) c.ok(f.order(n) > 0, "published", fmt("%s: %d points has no order", f.name, n)); c.ok(orders.size() >= 2, "published", "no orders"); }); }
    for (int64_t o = -60; o <= 1200; ++o) {
      if (!c.begin(fmt("%s order=%lld", f.name, (long long)o))) continue;
      c.guard([&] {
        int64_t n = f.npts(o), nx = f.next(o);
        if (n >= 0) {
          c.nontriv();
          c.ok(n > 0 && o >= 0, "size-of-order", fmt("%s order %lld -> %lld", f.name, (long long)o, (long long)n));
          c.ok(f.order(n) == o, "round-trip", fmt("%s order %lld -> npts %lld -> order %lld", f.name, (long long)o, (long long)n, (long long)f.order(n)));
          c.ok(nx == o, "next", fmt("%s next(%lld) = %lld although it is supported", f.name, (long long)o, (long long)nx));
          // no rule with n points integrates all harmonics of degree o with n < (floor(o/2)+1)^2
          int64_t h = o / 2 + 1; c.ok(n >= h * h || o < 3, "size-of-order", fmt("%s order %lld -> %lld points, below the (t/2+1)^2 bound", f.name, (long long)o, (long long)n));
          std::vector<P3> p; std::vector<double> w; f.make(n, p, w, 0); basic(c, f, n, p, w);
          c.stat("supported orders");
        } else c.ok(n < 0, "unsupported", fmt("%s order %lld -> %lld", f.name, (long long)o, (long long)n));
        auto it = std::lower_bound(orders.begin(), orders.end(), o);
        int64_t want = it == orders.end() ? orders.back() : *it;
        c.ok(nx == want, "next", fmt("%s next(%lld) = %lld, smallest supported order is %lld", f.name, (long long)o, (long long)nx, (long long)want));
        c.ok(f.next(nx) == nx && f.npts(nx) > 0, "next", fmt("%s next(%lld) = %lld is not supported", f.name, (long long)o, (long long)nx));
        c.stat("orders looked up");
      });
    }
    auto r = c.rng(f.name);
    // more points never buy a lower order; sizes outside the family have order -1
    const int64_t maxn = c.thorough ? 60000 : 24000, chunk = 500;
    for (int64_t a = -500; a < maxn; a += chunk) {
      if (!c.begin(fmt("%s sizes %lld..", f.name, (long long)a))) continue;
      c.guard([&] {
        for (int64_t n = a; n < a + chunk; ++n) {
          int64_t o = f.order(n);
          c.stat("sizes looked up");
          if (o < 0) {
            // such a size is no grid
            if (n >= 0 && (n < 1500 || n % 37 == 0 || c.thorough)) {
              bool threw = false; std::vector<P3> p; std::vector<double> w;
              try { f.make(n, p, w, 0); } catch (const std::exception&) { threw = true; }
              c.okf(threw, "constructible", [&] { return fmt("%s: %lld points can be constructed but have no order", f.name, (long long)n); });
            }
            continue;
          }
          c.nontriv(fmt("%s size %lld", f.name, (long long)n));
          c.okf(o > 0 && f.npts(o) == n, "round-trip", [&] { return fmt("%s npts %lld -> order %lld -> npts %lld", f.name, (long long)n, (long long)o, (long long)f.npts(o)); });
          c.okf(f.next(o) == o, "next", [&] { return fmt("%s npts %lld has order %lld but next(%lld) = %lld", f.name, (long long)n, (long long)o, (long long)o, (long long)f.next(o)); });
        }
      });
    }
    if (c.begin(fmt("%s monotone", f.name))) c.guard([&] {
      c.nontriv();
      for (size_t i = 1; i < orders.size(); ++i) c.ok(f.npts(orders[i]) > f.npts(orders[i - 1]), "monotone", fmt("%s order %lld -> %lld points, order %lld -> %lld", f.name, (long long)orders[i - 1], (long long)f.npts(orders[i - 1]), (long long)orders[i], (long long)f.npts(orders[i])));
    });
    // values that some narrower or wrapped integer would take for a supported one
    for (int b : {8, 16, 31, 32, 33, 48, 63}) if (c.begin(fmt("%s congruent modulo 2^%d", f.name, b))) c.guard([&] {
      c.nontriv(); const uint64_t m = uint64_t(1) << b;
      for (auto o : orders) for (int s = 0; s < 3; ++s) {
        const uint64_t off = s == 0 ? m : s == 1 ? (uint64_t)0 - m : m * 3; int64_t x = (int64_t)((uint64_t)o + off), y = (int64_t)((uint64_t)f.npts(o) + off), z = -o; 
        auto known = [&](int64_t v) { return std::find(orders.begin(), orders.end(), v) != orders.end(); };
        auto first = [&](int64_t v) { for (auto q : orders) if (q >= v) return q; return orders.back(); };
        if (!known(x)) c.okf(f.npts(x) < 0, "unsupported", [&] { return fmt("%s order %lld -> %lld", f.name, (long long)x, (long long)f.npts(x)); });
        bool size = false; for (auto q : orders) size = size || f.npts(q) == y;
        if (!size) c.okf(f.order(y) < 0, "unsupported", [&] { return fmt("%s npts %lld -> %lld", f.name, (long long)y, (long long)f.order(y)); });
        c.okf(f.next(x) == first(x), "next", [&] { return fmt("%s next(%lld) = %lld", f.name, (long long)x, (long long)f.next(x)); });
        c.okf(f.npts(z) < 0 && f.order(-f.npts(o)) < 0, "unsupported", [&] { return fmt("%s %lld", f.name, (long long)z); });
        c.stat("congruent values looked up", 3);
      }
    });
    for (int k = 0; k < 300; ++k) {
      int64_t big = (int64_t)(r.next() >> r.in(1, 40)); if (r.coin()) big = -big;
      if (!c.begin(fmt("%s extreme %d", f.name, k))) continue;
      c.guard([&] {
        if (std::llabs(big) < 1200) return;
        c.nontriv(fmt("%s %lld", f.name, (long long)big));
        c.ok(f.npts(big) < 0, "unsupported", fmt("%s order %lld -> %lld", f.name, (long long)big, (long long)f.npts(big)));
        if (std::llabs(big) > 60000) c.ok(f.order(big) < 0, "unsupported", fmt("%s npts %lld -> %lld", f.name, (long long)big, (long long)f.order(big)));
        c.ok(f.next(big) == (big < 0 ? orders.front() : orders.back()), "next", fmt("%s next(%lld) = %lld", f.name, (long long)big, (long long)f.next(big)));
      });
    }
  }
}
// ------------------------------------------------------------------------ C10
using M3 = std::array<std::array<double, 3>, 3>;
static M3 rot(std::array<LD, 3> u, LD t) {
  LD n = sqrtl(u[0] * u[0] + u[1] * u[1] + u[2] * u[2]); for (auto& x : u) x /= n;
  LD co = cosl(t), s = sinl(t), r[3][3];
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r[i][j] = (1 - co) * u[i] * u[j] + (i == j ? co : 0);
  r[0][1] -= s * u[2]; r[0][2] += s * u[1]; r[1][0] += s * u[2]; r[1][2] -= s * u[0]; r[2][0] -= s * u[1]; r[2][1] += s * u[0];
  M3 m; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m[i][j] = (double)r[i][j]; return m;
}
struct Cells {
  static constexpr double C = 0.004;
  const std::vector<P3>& p; std::map<std::array<int, 3>, std::vector<int>> h;
  static std::array<int, 3> key(const P3& a) { return {(int)std::floor(a[0] / C), (int)std::floor(a[1] / C), (int)std::floor(a[2] / C)}; }
  explicit Cells(const std::vector<P3>& q) : p(q) { for (int i = 0; i < (int)p.size(); ++i) h[key(p[i])].push_back(i); }
  std::pair<int, double> nearest(const P3& a, int not_this = -1) const {
    auto k = key(a); int b = -1; double bd = 1e9;
    for (int i = -1; i < 2; ++i) for (int j = -1; j < 2; ++j) for (int l = -1; l < 2; ++l) {
      auto it = h.find({k[0] + i, k[1] + j, k[2] + l}); if (it == h.end()) continue;
      for (int x : it->second) if (x != not_this) { double d = 0; for (int t = 0; t < 3; ++t) d = std::max(d, std::fabs(p[x][t] - a[t])); if (d < bd) { bd = d; b = x; } }
    }
    return {b, bd};
  }
};
static void c10(Ctx& c) {
  const LD g = (1 + sqrtl(5.0L)) / 2;
  const M3 inv = {{{-1, 0, 0}, {0, -1, 0}, {0, 0, -1}}}, c4 = {{{0, -1, 0}, {1, 0, 0}, {0, 0, 1}}}, c3 = {{{0, 0, 1}, {1, 0, 0}, {0, 1, 0}}}, c2 = {{{-1, 0, 0}, {0, -1, 0}, {0, 0, 1}}};
  const std::vector<std::pair<std::string, M3>> oct = {{"inversion", inv}, {"fourfold rotation", c4}, {"threefold rotation", c3}},
    ico = {{"fivefold rotation", rot({0, 1, g}, 2 * PIL / 5)}, {"threefold rotation", c3}, {"twofold rotation", c2}}, none;
  for (auto& f : fams())
    for (int64_t o = f.top; o >= 0; --o) {
      int64_t n = f.npts(o);
      if (n <= 0) continue;
      if (!c.begin(fmt("%s npts=%lld", f.name, (long long)n))) continue;
      c.nontriv();
      c.guard([&] {
        auto rg = c.case_rng();
        std::vector<P3> p; std::vector<double> w; f.make(n, p, w, (int)(o % 4));
        if (!basic(c, f, n, p, w)) return;
        Cells h(p);
        for (int64_t i = 0; i < n; ++i) {
          auto [b, d] = h.nearest(p[i], (int)i);
          c.okf(!(d < 1e-6), fmt("distinct:%s", f.name), [&] { return fmt("%s %lld: points %lld and %d coincide", f.name, (long long)n, (long long)i, b); });
        }
        if (f.kind == 3) for (int64_t i = 0; i < n; ++i) c.okf(std::fabs(w[i] * n / (4 * M_PI) - 1) <= 2e-15, "equal-weight", [&] { return fmt("%s %lld: weight %lld is %.17g, 4 pi/N is %.17g", f.name, (long long)n, (long long)i, w[i], 4 * M_PI / n); });
        auto ops = f.kind == 2 ? ico : f.kind == 3 ? none : oct;
        // generators, and random words in them
        if (!ops.empty()) for (int t = 0; t < (c.thorough ? 12 : 2); ++t) {
          M3 m = ops[rg.below(ops.size())].second;
          for (int s = 0; s < 5; ++s) { const M3& a = ops[rg.below(3)].second; M3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { r[i][j] = 0; for (int k = 0; k < 3; ++k) r[i][j] += a[i][k] * m[k][j]; } m = r; }
          ops.push_back({"composed operation", m});
        }
        for (auto& [nm, m] : ops) {
          std::vector<char> hit(n, 0);
          double worst = 0;
          for (int64_t i = 0; i < n; ++i) {
            P3 a; for (int k = 0; k < 3; ++k) a[k] = m[k][0] * p[i][0] + m[k][1] * p[i][1] + m[k][2] * p[i][2];
            auto [b, d] = h.nearest(a);
            if (!c.okf(b >= 0 && d <= 4e-15, fmt("symmetry:%s", f.name), [&] { return fmt("%s %lld: the image of point %lld under a %s is %.3g away from the nearest point", f.name, (long long)n, (long long)i, nm.c_str(), d); })) break;
            worst = std::max(worst, d);
            c.okf(std::fabs(w[b] - w[i]) <= 4e-15 * std::fabs(w[i]), fmt("orbit-weight:%s", f.name), [&] { return fmt("%s %lld: points %lld and %d are images under a %s but weigh %.17g and %.17g", f.name, (long long)n, (long long)i, b, nm.c_str(), w[i], w[b]); });
            c.okf(!hit[b], fmt("symmetry:%s", f.name), [&] { return fmt("%s %lld: two points map to %d under a %s", f.name, (long long)n, b, nm.c_str()); });
            hit[b] = 1;
          }
          c.peak(fmt("%s distance of images", f.name), worst);
          c.stat("images matched", n);
        }
      });
    }
}
int main(int argc, char** argv) {
  Ctx c; c.init(argc, argv);
  if (c.prop == "C07") c07(c); else if (c.prop == "C08") c08(c); else if (c.prop == "C10") c10(c); else return 71;
  return c.finish();
}
