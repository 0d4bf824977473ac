// C15 batches conserve the quadrature, C16 batches are bounded, tight,
// separated and produced in bounded work, C17 views and life cycle.
#include "vcommon.hpp"
#include <integratorxx/quadratures/radial.hpp>
#include <integratorxx/quadratures/s2/lebedev_laikov.hpp>
#include <integratorxx/composite_quadratures/spherical_quadrature.hpp>
#include <integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp>
#include <integratorxx/batch/spherical_micro_batcher.hpp>
using namespace IntegratorXX;
using LD = long double;
using P3 = std::array<double, 3>; using VP = std::vector<P3>; using VW = std::vector<double>;
using Base = SphericalQuadratureBase<VP, VW>;
static const LD EPS = 2.220446049250313e-16L;
using LLQ = LebedevLaikov<double>;
using SQ = SphericalQuadrature<MuraKnowles<double, double>, LLQ>; using PQ = PrunedSphericalQuadrature<Becke<double, double>, LLQ>;

// A user-defined spherical quadrature with arbitrary points.
struct Cloud : Base {
  VP p; VW w;
  Cloud(VP a, VW b, P3 c) : Base(c), p(std::move(a)), w(std::move(b)) {}
  Cloud(const Cloud&) = default; Cloud(Cloud&&) = default;
  const VP& sph_points_adaptor() const override { return p; }
  VP& sph_points_adaptor() override { return p; }
  const VW& sph_weights_adaptor() const override { return w; }
  VW& sph_weights_adaptor() override { return w; }
  std::shared_ptr<Base> clone() const override { return std::make_shared<Cloud>(*this); }
};
static const char* KN[] = {"spherical", "pruned", "uniform", "shells", "lattice", "line", "plane", "coincident", "clusters", "scales", "ulps", "few", "denormal", "centred pairs", "overflowing extent"};
static const int NK = 15;
static Cloud cloud(Rng& g, int kind, size_t n) {
  VP p; P3 c = {0, 0, 0}; if (g.coin(0.4)) for (auto& x : c) x = g.uni(-4, 4);
  auto dir = [&] { P3 d; LD s; do { s = 0; for (auto& x : d) { x = g.uni(-1, 1); s += (LD)x * x; } } while (s > 1 || s < 1e-4L); for (auto& x : d) x /= (double)sqrtl(s); return d; };
  if (kind == 11) n = g.in(0, 3);
  for (size_t i = 0; i < n; ++i) {
    P3 q = {0, 0, 0};
    switch (kind) {
      case 2: for (auto& x : q) x = g.uni(-3, 3); break;
      case 3: { P3 d = dir(); double r = std::exp(g.in(-6, 4)); for (int k = 0; k < 3; ++k) q[k] = r * d[k]; break; }
      case 4: { int m = std::max(2, (int)std::cbrt((double)n)); for (auto& x : q) x = (double)g.in(-m, m); break; } // many points on cell faces, repeats
      case 5: { double t = g.coin(0.2) ? (double)g.in(-5, 5) : g.uni(-5, 5); int ax = (int)(g.s >> 60) % 3; q = {1, 2, -1}; q[(ax + n) % 3] = t; q = {t, n % 2 ? 2 * t : 0.5, -1}; break; }
      case 6: q = {g.uni(-1, 1), g.coin(0.3) ? 0.0 : g.uni(-1, 1), 0.25}; break;
      case 7: { static const P3 s[3] = {{0.5, 0.5, 0.5}, {-1, 2, 0.1}, {0, 0, 0}}; q = s[g.below(n % 3 + 1)]; break; }
      case 8: { P3 o = {(double)g.in(-2, 2), (double)g.in(-2, 2), 0}; double e = std::pow(10.0, -(double)g.in(1, 15)); for (int k = 0; k < 3; ++k) q[k] = o[k] + e * g.uni(-1, 1); break; }
      case 9: { P3 d = dir(); double r = std::exp(g.uni(-300, 300)); for (int k = 0; k < 3; ++k) q[k] = r * d[k]; break; }
      case 10: for (auto& x : q) { x = 1e3; for (int k = (int)g.below(4); k > 0; --k) x = std::nextafter(x, 2e3); } break; // extents of a few ulps
      case 11: for (auto& x : q) x = g.coin(0.3) ? 0.0 : g.uni(-1, 1); break;
      case 12: for (auto& x : q) x = std::numeric_limits<double>::denorm_min() * (double)g.in(-3, 3); break;
      case 14: for (auto& x : q) x = (g.coin() ? 1 : -1) * (g.coin(0.2) ? 1.7976931348623157e308 : g.uni(0.1, 1.79) * 1e308); if (n % 3 == 1) q[2] = 0.5; break; // farther apart than the largest number
      case 13: { P3 d = dir(); double r = g.coin() ? 1e-9 : 10; double s = i % 2 ? -1 : 1; for (int k = 0; k < 3; ++k) q[k] = s * r * d[k]; break; }
    }
    p.push_back(q);
  }
  if (kind != 9 && kind != 10 && kind != 12 && kind != 14) for (auto& q : p) for (int k = 0; k < 3; ++k) q[k] += c[k];
  else c = {0, 0, 0};
  if (g.coin(0.2)) for (auto& q : p) for (auto& x : q) if (x == 0) x = -0.0;
  VW w; for (size_t i = 0; i < p.size(); ++i) w.push_back(g.coin(0.3) ? 0.25 : g.uni(-1, 1)); // equal and distinct weights
  if (g.coin(0.3)) { double z = g.coin(0.3) ? 1 : g.uni(0, 0.6); for (auto& x : w) if (g.coin(z)) x = g.coin() ? 0.0 : g.coin() ? -0.0 : g.coin() ? 5e-324 : 1e-300; } // weights a screening might drop
  if (g.coin(0.1)) for (auto& x : w) if (g.coin(0.2)) x = g.coin() ? std::numeric_limits<double>::infinity() : g.coin() ? -std::numeric_limits<double>::infinity() : std::nan("7");
  return Cloud(p, w, c);
}
template <class B> static auto drain(B& b) { std::vector<std::tuple<P3, P3, VP, VW>> v; auto e = b.end(); for (auto it = b.begin(); it != e; ++it) v.push_back(*it); return v; }
using Bits = std::array<uint64_t, 4>;
static std::vector<Bits> bits(const VP& p, const VW& w) { std::vector<Bits> r(p.size()); for (size_t i = 0; i < p.size(); ++i) { memcpy(&r[i][0], p[i].data(), 24); memcpy(&r[i][3], &w[i], 8); } return r; }

struct Seen { std::vector<std::tuple<P3, P3, VP, VW>> batches; VP p0; VW w0; size_t nb = 0, np = 0, mx = 0; VP pq; VW wq; };
template <class Q> static Seen run(Ctx& c, Q q, size_t bsz, int how) {
  Seen s; s.p0 = q.points(); s.w0 = q.weights();
  auto take = [&](auto&& b) { s.batches = drain(b); s.nb = b.nbatches(); s.np = b.npts(); s.mx = b.max_batch_size(); s.pq = b.points(); s.wq = b.weights(); };
  if (how == 0) { auto b = make_batcher(bsz, q); c.ok(same_vec(q.points(), s.p0) && same_vec(q.weights(), s.w0), "argument", "batching an lvalue changed it"); take(b); }
  else if (how == 1) { const Q& k = q; auto b = make_batcher(bsz, k); c.ok(same_vec(q.points(), s.p0) && same_vec(q.weights(), s.w0), "argument", "batching a const lvalue changed it"); take(b); }
  else if (how == 2) { auto b = make_batcher(bsz, std::move(q)); take(b); }
  else { std::shared_ptr<Base> sp = std::make_shared<Q>(std::move(q)); SphericalMicroBatcher<VP, VW> b(bsz, sp); take(b); }
  return s;
}
static Seen workload(Ctx& c, Rng& g, int kind, size_t n, size_t bsz, int how, std::string& desc) {
  if (kind == 0) {
    size_t nr = 1 + n / 60; static const int A[] = {6, 14, 26, 50, 110, 194, 302}; size_t na = A[g.below(7)]; if (nr * na > 40000) na = 26;
    P3 cen = g.coin() ? P3{0, 0, 0} : P3{g.uni(-5, 5), g.uni(-5, 5), g.uni(-5, 5)}; desc = fmt("nr=%zu na=%zu", nr, na);
    return run(c, SQ(MuraKnowles<double, double>(nr, g.logu(0.1, 10)), LLQ(na), cen), bsz, how);
  }
  if (kind == 1) {
    size_t nr = 3 + n / 90; Becke<double, double> rq(nr, g.logu(0.1, 10)); RadialGridPartition<LLQ> p; p.add_quad(rq, 0, LLQ(6)); p.add_quad(rq, 1 + nr / 4, LLQ(26)); p.add_quad(rq, 1 + nr / 2, LLQ(g.coin() ? 50 : 146)); p.finalize(rq);
    P3 cen = g.coin() ? P3{0, 0, 0} : P3{g.uni(-5, 5), g.uni(-5, 5), g.uni(-5, 5)}; desc = fmt("nr=%zu", nr);
    return run(c, PQ(rq, p, cen), bsz, how);
  }
  desc = fmt("n=%zu", n);
  return run(c, cloud(g, kind, n), bsz, how);
}
static void conserve(Ctx& c, const Seen& s, const char* kind) {
  size_t n = s.p0.size(), tot = 0; VP p; VW w;
  for (auto& [lo, up, bp, bw] : s.batches) {
    c.okf(bp.size() == bw.size(), "batch-shape", [&] { return fmt("%s: %zu points with %zu weights", kind, bp.size(), bw.size()); });
    tot += bp.size(); p.insert(p.end(), bp.begin(), bp.end()); w.insert(w.end(), bw.begin(), bw.end());
  }
  if (!c.okf(tot == n && w.size() == n && s.np == n && s.nb == s.batches.size(), "count", [&] { return fmt("%s: %zu points in %zu batches (nbatches() %zu, npts() %zu), the quadrature has %zu", kind, tot, s.batches.size(), s.nb, s.np, n); })) return;
  auto a = bits(s.p0, s.w0), b = bits(p, w); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
  c.okf(a == b, "conservation", [&] { size_t i = 0; while (i < n && a[i] == b[i]) ++i; double x[4]; memcpy(x, &a[i], 32); return fmt("%s: the batches are not a rearrangement of the (point, weight) pairs; first missing or extra near (%.17g %.17g %.17g | %.17g)", kind, x[0], x[1], x[2], x[3]); });
  auto d = bits(s.pq, s.wq); std::sort(d.begin(), d.end());
  c.okf(a == d, "conservation", [&] { return fmt("%s: the batcher's own points and weights are not a rearrangement of the quadrature's", kind); });
  c.stat("points conserved", n); c.stat("batches", s.batches.size());
}
static void bounded(Ctx& c, const Seen& s, size_t bsz, const char* kind, bool separation) {
  size_t n = s.p0.size(), B = s.batches.size(), most = 0;
  c.ok(s.mx == bsz, "max-batch-size", fmt("max_batch_size() is %zu, requested %zu", s.mx, bsz));
  for (size_t i = 0; i < B; ++i) {
    auto& [lo, up, bp, bw] = s.batches[i];
    if (!c.okf(bp.size() >= 1 && bp.size() <= bsz, "size", [&] { return fmt("%s: batch %zu of %zu has %zu points, limit %zu", kind, i, B, bp.size(), bsz); })) return;
    most = std::max(most, bp.size());
    P3 l = bp[0], u = bp[0]; for (auto& q : bp) for (int k = 0; k < 3; ++k) { l[k] = std::min(l[k], q[k]); u[k] = std::max(u[k], q[k]); }
    c.okf(lo == l && up == u, "box", [&] { return fmt("%s: batch %zu reports the box (%.17g %.17g %.17g)-(%.17g %.17g %.17g), its points span (%.17g %.17g %.17g)-(%.17g %.17g %.17g)", kind, i, lo[0], lo[1], lo[2], up[0], up[1], up[2], l[0], l[1], l[2], u[0], u[1], u[2]); });
  }
  c.ok(B >= (n + bsz - 1) / bsz, "count", fmt("%zu batches of at most %zu for %zu points", B, bsz, n));
  c.peak("largest batch / limit", (double)most / bsz); c.stat("batches", B);
  if (!separation || B < 2 || B > 1500) return;
  // boxes of two batches do not overlap beyond their faces, unless both are
  // smaller than the resolution of the coordinates
  auto tiny = [](const P3& l, const P3& u) { for (int k = 0; k < 3; ++k) if (!((LD)u[k] - l[k] <= 4 * EPS * std::max(fabsl(l[k]), fabsl(u[k])) + 1e-320L)) return false; return true; };
  for (size_t i = 0; i < B; ++i) for (size_t j = i + 1; j < B; ++j) {
    auto& [al, au, ap, aw] = s.batches[i]; auto& [bl, bu, bp, bw] = s.batches[j];
    bool over = true;
    for (int k = 0; k < 3 && over; ++k) {
      bool fa = al[k] == au[k], fb = bl[k] == bu[k];
      if (fa && fb) over = al[k] == bl[k]; else if (fa) over = bl[k] < al[k] && al[k] < bu[k]; else if (fb) over = al[k] < bl[k] && bl[k] < au[k]; else over = std::max(al[k], bl[k]) < std::min(au[k], bu[k]);
    }
    ++c.checks;
    if (over && !(tiny(al, au) && tiny(bl, bu))) { c.violation("overlap", fmt("%s: batches %zu and %zu overlap: (%.17g %.17g %.17g)-(%.17g %.17g %.17g) and (%.17g %.17g %.17g)-(%.17g %.17g %.17g)", kind, i, j, al[0], al[1], al[2], au[0], au[1], au[2], bl[0], bl[1], bl[2], bu[0], bu[1], bu[2])); return; }
  }
  c.stat("pairs of boxes compared", B * (B - 1) / 2);
}
// Far more points than any 16-bit count or index holds
static Seen huge(Ctx& c, Rng& g, int i, std::string& d) {
  size_t nr = (size_t)g.in(90, 160), n = (size_t)g.in(66000, 150000); static const size_t lim[] = {512, 70000, 300, 33000, 128, 90000};
  size_t bsz = lim[i % 6]; int how = i % 4; d = fmt("limit=%zu", bsz);
  if (i % 3 == 0) { P3 cen = {g.uni(-3, 3), 0, 1}; return run(c, SQ(MuraKnowles<double, double>(nr, g.logu(0.3, 5)), LLQ(974), cen), bsz, how); }
  if (i % 3 == 1) { Becke<double, double> rq(nr, 1.5); RadialGridPartition<LLQ> p; p.add_quad(rq, 0, LLQ(26)); p.add_quad(rq, 20, LLQ(1202)); p.finalize(rq); return run(c, PQ(rq, p), bsz, how); }
  return run(c, cloud(g, i % 2 ? 2 : 8, n), bsz, how);
}
static void c1516(Ctx& c, bool second) {
  for (int i = 0; i < (c.thorough ? 60 : 12); ++i) if (c.begin(fmt("huge #%d", i))) c.guard([&] {
    auto g = c.case_rng(); std::string d; vm::news_budget = 50000000; Seen s = huge(c, g, i, d); vm::news_budget = 0; static const size_t lim[] = {512, 70000, 300, 33000, 128, 90000};
    if (s.batches.size() > 1) c.nontriv(fmt("huge %zu points %s batches=%zu", s.p0.size(), d.c_str(), s.batches.size()));
    if (second) bounded(c, s, lim[i % 6], "huge", true); else conserve(c, s, "huge");
  });
  // every number of points, batch limits next to the sizes blocked loops use
  for (size_t n = 1; n <= (c.thorough ? 6000u : 2100u); ++n) if (c.begin(fmt("size %zu", n))) c.guard([&] {
    auto g = c.case_rng(); static const size_t lim[] = {1, 2, 3, 4, 7, 8, 16, 31, 32, 33, 64, 100, 128, 256, 512, 1000, 1024}; size_t bsz = g.coin(0.1) ? n : g.coin(0.1) ? n + 1 : g.coin(0.1) && n > 1 ? n - 1 : lim[g.below(17)]; int kind = 2 + (int)g.below(9); if (bsz < 4 && n > 700) bsz = 32;
    vm::news_budget = 5000000; Seen s = run(c, cloud(g, kind, n), bsz, (int)g.below(4)); vm::news_budget = 0; if (s.batches.size() > 1) c.nontriv(fmt("%s %zu points limit %zu", KN[kind], n, bsz));
    c.stat("sizes visited in sequence"); if (second) bounded(c, s, bsz, KN[kind], true); else conserve(c, s, KN[kind]);
  });
  auto r = c.rng(second ? "c16" : "c15");
  int N = c.thorough ? 80000 : 20000;
  for (int t = 0; t < N; ++t) {
    int kind = t % NK, how = (t / NK) % 4;
    size_t n = r.coin(0.3) ? r.in(1, 40) : (size_t)r.logu(20, c.thorough ? 20000 : 6000);
    size_t bsz = r.coin(0.15) ? 1 + r.below(3) : r.coin(0.1) ? n + 5 : (size_t)r.logu(1, n + 4);
    if (r.coin(0.25)) { n = (size_t(1) << r.below(c.thorough ? 15 : 13)) + r.below(3); if (n > 1 && r.coin(0.3)) --n; } // next to powers of two
    if (r.coin(0.25)) { bsz = (size_t(1) << r.below(11)) + r.below(2); if (r.coin(0.2)) bsz = n - (n > 1 && r.coin()); else if (r.coin(0.15)) bsz = std::max<size_t>(1, n / (1 + r.below(4))); }
    if (r.coin(0.04)) { static const size_t big[] = {SIZE_MAX, SIZE_MAX - 1, SIZE_MAX / 2, SIZE_MAX / 2 + 1, size_t(1) << 32, (size_t(1) << 32) + 1, (size_t(1) << 31), (size_t(1) << 31) - 1, 65536, 65537, size_t(1) << 53, SIZE_MAX - 5}; bsz = big[r.below(12)]; c.stat("limits beyond any number of points"); }
    if (kind == 12 || kind == 7 || kind == 10) n = std::min<size_t>(n, 1500);
    if (bsz < 4) n = std::min<size_t>(n, 800);
    if (!c.begin(fmt("%s n=%zu limit=%zu how=%d #%d", KN[kind], n, bsz, how, t))) continue;
    c.guard([&] {
      auto g = c.case_rng(); std::string d;
      vm::news_budget = 5000000; // the longest case of the pinned tree needs under 1 % of this
      Seen s = workload(c, g, kind, n, bsz, how, d);
      c.peak("allocations of one case", (double)vm::news); vm::news_budget = 0;
      if (s.batches.size() > 1) c.nontriv(fmt("%s %s limit=%zu batches=%zu", KN[kind], d.c_str(), bsz, s.batches.size()));
      c.stat(std::string(KN[kind]) + " clouds");
      if (second) bounded(c, s, bsz, KN[kind], kind != 14); else conserve(c, s, KN[kind]);
    });
  }
}
// ------------------------------------------------------------------------ C17
using Bt = SphericalMicroBatcher<VP, VW>;
struct Live { std::string wrong; std::unique_ptr<Bt> b; std::shared_ptr<Base> mine; std::vector<VP> rel; std::vector<VW> w; P3 cen; LD tol; size_t mx; };
#ifndef WITHOUT_CONST_ITERATOR
template <class I> static bool same_pos(I a, I b) { bool e = a == b, n = a != b; if (e == n) throw std::logic_error("== and != agree"); return e; }
#else
template <class I> static bool same_pos(I a, I b) { return a.idx_it == b.idx_it; }
#endif
static LD mag(const P3& p) { return std::max({fabsl(p[0]), fabsl(p[1]), fabsl(p[2])}); }
static bool check_live(Ctx& c, Rng& g, Live& L, const std::string& log) {
  auto bad = [&](const char* key, const std::string& m) { c.violation(key, m + " after" + log.substr(log.size() > 300 ? log.size() - 300 : 0)); return false; };
  Bt& b = *L.b; const Bt& cb = b; const size_t B = L.rel.size();
  c.stat("batchers compared"); ++c.checks;
  if (b.nbatches() != B || cb.nbatches() != B) return bad("count", fmt("%zu batches instead of %zu", b.nbatches(), B));
  if (b.max_batch_size() != L.mx) return bad("max-batch-size", "max_batch_size() changed");
  if (!same_bits(cb.quadrature().center(), L.cen)) return bad("center", "centre of the batched quadrature");
  if (&b.quadrature() != &cb.quadrature() || &b.points() != &b.quadrature().points() || &cb.weights() != &cb.quadrature().weights()) return bad("views", "accessors disagree about the quadrature");
  if (b.npts() != b.points().size() || b.npts() != b.weights().size()) return bad("count", "npts()");
  size_t i = 0, off = 0; auto it = b.begin(); auto ct = cb.cbegin();
  for (; !same_pos(it, b.end()); ++i) {
    if (i >= B) return bad("walk", "iteration passes the last batch");
    if (same_pos(ct, cb.cend())) return bad("walk", "const iteration ends early");
    auto [lo, up, p, w] = *it; auto [clo, cup, cp, cw] = *ct;
    if (p.size() != L.rel[i].size() || w.size() != p.size()) return bad("walk", fmt("batch %zu has %zu points instead of %zu", i, p.size(), L.rel[i].size()));
    if (!same_vec(p, cp) || !same_vec(w, cw) || lo != clo || up != cup) return bad("views", fmt("const and non-const iteration differ at batch %zu", i));
    if (!same_vec(w, L.w[i])) return bad("weights", fmt("weights of batch %zu changed", i));
    P3 l = p[0], u = p[0];
    for (size_t j = 0; j < p.size(); ++j) for (int k = 0; k < 3; ++k) {
      l[k] = std::min(l[k], p[j][k]); u[k] = std::max(u[k], p[j][k]);
      if (!(fabsl((LD)p[j][k] - ((LD)L.rel[i][j][k] + L.cen[k])) <= L.tol)) return bad("points", fmt("batch %zu point %zu is not where it was put (component %d is %.17g, expected %.17Lg)", i, j, k, p[j][k], (LD)L.rel[i][j][k] + L.cen[k]));
    }
    if (l != lo || u != up) return bad("box", fmt("box of batch %zu does not span its points", i));
    { auto [np, pb, pe, wb, we] = it.range(); if (np != p.size() || (size_t)(pe - pb) != np || (size_t)(we - wb) != np || &*pb != b.points().data() + off || &*wb != b.weights().data() + off) return bad("range", fmt("range() of batch %zu", i));
      auto [np2, pb2, pe2, wb2, we2] = ct.range(); if (np2 != np || (size_t)(pe2 - pb2) != np || (size_t)(we2 - wb2) != np || &*pb2 != &*pb) return bad("range", fmt("const range() of batch %zu", i)); }
    if (i % 3 == 0) {
      auto [al, aup, ap, aw] = b.at(i); auto [dl, du, dp, dw] = cb.at(i);
      if (!same_vec(ap, p) || !same_vec(aw, w) || al != lo || aup != up || !same_vec(dp, p) || !same_vec(dw, w) || dl != lo || du != up) return bad("at", fmt("at(%zu) differs from iteration", i));
      auto jt = b.begin() + (int)i; if (!same_pos(jt, it)) return bad("advance", fmt("begin()+%zu is not the iterator reached by ++", i));
      auto kt = cb.cbegin() + (int)i; if (!same_pos(kt, ct)) return bad("advance", fmt("cbegin()+%zu is not the iterator reached by ++", i));
      auto keep = it; auto cnext = ct + 1, ckeep = ct; if (!(ckeep == ct) || !same_pos(cnext + (-1), ct) || !same_pos(cb.cend() + ((int)i - (int)B), ct) || !same_pos(b.end() + ((int)i - (int)B), it) || !same_pos((b.begin() + (int)B) + ((int)i - (int)B), it) || !same_pos(it + 0, it) || !same_pos(ct + 0, ct)) return bad("advance", fmt("steps back and forth do not return to batch %zu", i));
      auto next = it + 1; if (!same_pos(next + (-1), it)) return bad("advance", "it+1-1 is not it"); if (!(keep == it) || next == it) return bad("advance", "it+1 moved it");
    }
    off += p.size();
    if (g.coin()) { auto old = it++; auto cold = ct++; if (old == it) return bad("advance", "post-increment returned the new position"); (void)cold; } else { ++it; ++ct; }
  }
  if (i != B || !same_pos(ct, cb.cend())) return bad("walk", fmt("iteration sees %zu of %zu batches", i, B));
  for (size_t k : {B, B + 1, B + 1000000, (size_t)-1}) { bool t1 = false, t2 = false; try { b.at(k); } catch (const std::exception&) { t1 = true; } try { cb.at(k); } catch (const std::exception&) { t2 = true; } if (!t1 || !t2) return bad("at", fmt("at(%zu) of %zu batches does not throw", k, B)); }
  if (off != b.npts()) return bad("count", "batches do not cover the quadrature");
  return true;
}
static void learn(Live& L) { // model of a freshly made batcher
  L.cen = L.b->quadrature().center(); L.mx = L.b->max_batch_size(); LD m = mag(L.cen);
  for (auto it = L.b->begin(); it != L.b->end(); ++it) { auto [lo, up, p, w] = *it; VP r = p; for (auto& x : r) { for (int k = 0; k < 3; ++k) x[k] = (double)((LD)x[k] - L.cen[k]); m = std::max(m, mag(x)); } L.rel.push_back(r); L.w.push_back(w); }
  L.tol = 8 * EPS * (m + mag(L.cen));
}
static Live make_live(Rng& g) {
  Live L; size_t bsz = (size_t)g.logu(1, 80); int how = (int)g.below(7);
  auto from = [&](auto q) {
    using Q = decltype(q); const P3 qc = q.center(); const VP qp = q.points(); const VW qw = q.weights(); std::vector<size_t> given;
    if (how == 0) L.b = std::make_unique<Bt>(make_batcher(bsz, q));
    else if (how == 1) L.b = std::make_unique<Bt>(make_batcher(bsz, std::move(q)));
    else if (how == 2) { std::shared_ptr<Base> s = std::make_shared<Q>(q); L.b = std::make_unique<Bt>(bsz, s); }
    else if (how == 3) { const Q k(q); L.b = std::make_unique<Bt>(bsz, k); }
    else { // a partition supplied by the caller
      std::vector<size_t> idx = {0}; while (idx.back() < q.npts()) idx.push_back(std::min<size_t>(q.npts(), idx.back() + 1 + g.below(20)));
      given = idx;
      if (how == 4) { L.b = std::make_unique<Bt>(bsz, static_cast<const Q&>(q), idx); } else if (how == 5) { std::shared_ptr<Base> s = q.clone(); L.b = std::make_unique<Bt>(bsz, s, idx); } else L.b = std::make_unique<Bt>(bsz, std::move(q), idx);
    }
    auto& b = *L.b; if (!same_bits(b.quadrature().center(), qc)) L.wrong = "centre is not that of the quadrature"; if (b.max_batch_size() != bsz) L.wrong = "max_batch_size() is not the one asked for";
    if (b.npts() != qp.size()) L.wrong = "number of points is not that of the quadrature";
    if (given.size()) { // batches are the ranges the caller gave, points stay where they are
      if (!same_vec(b.points(), qp) || !same_vec(b.weights(), qw)) L.wrong = "points were rearranged although the partition was given";
      if (b.nbatches() != given.size() - 1) L.wrong = "number of batches is not that of the partition given";
      else for (size_t i = 0; i + 1 < given.size(); ++i) { auto [lo, up, p, w] = *(b.begin() + (int)i); if (p.size() != given[i + 1] - given[i] || !std::equal(p.begin(), p.end(), qp.begin() + given[i]) || !same_vec(w, VW(qw.begin() + given[i], qw.begin() + given[i + 1]))) L.wrong = "batches are not the ranges given"; }
    }
  };
  int k = (int)g.below(3); P3 cen = {g.uni(-3, 3), 0, g.uni(-3, 3)}; size_t nr = g.in(1, 6);
  if (k == 0) from(SQ(MuraKnowles<double, double>(nr, g.logu(0.2, 5)), LLQ(g.coin() ? 26 : 6), cen));
  else if (k == 1) { Becke<double, double> rq(nr + 1); RadialGridPartition<LLQ> p; p.add_quad(rq, 0, LLQ(6)); p.add_quad(rq, nr, LLQ(26)); p.finalize(rq); from(PQ(rq, p, cen)); }
  else { int kind; do kind = (int)g.in(2, 13); while (kind == 9 || kind == 12 || kind == 11); from(cloud(g, kind, g.in(1, 120))); }
  learn(L);
  return L;
}
static Live make_live(Ctx& c, Rng& g) { Live L = make_live(g); c.okf(L.wrong.empty(), "made", [&] { return L.wrong; }); return L; }
// Very many batches: positions are taken at random
static void many(Ctx& c, Rng& g, size_t nr, size_t na, size_t lim) {
  SQ q(MuraKnowles<double, double>(nr, g.logu(0.5, 5)), LLQ(na), P3{0.5, g.uni(-1, 1), 0}); Bt b(lim, q); const Bt& cb = b; const size_t B = b.nbatches();
  c.peak("batches in one batcher", B); std::vector<size_t> off; size_t n = 0, i = 0;
  for (auto it = b.begin(); !same_pos(it, b.end()); ++it, ++i) { auto r = it.range(); off.push_back(n); n += std::get<0>(r); if (i > B) break; }
  if (!c.okf(i == B && n == b.npts() && n == q.npts(), "walk", [&] { return fmt("%s: %zu of %zu batches, %zu of %zu points", c.cur.c_str(), i, B, n, b.npts()); })) return;
  std::vector<size_t> pos = {0, B - 1, B / 2}; for (size_t x : {127, 128, 255, 256, 32767, 32768, 65535, 65536, 65537}) if (x < B) pos.push_back(x); for (int k = 0; k < 400; ++k) pos.push_back(g.below(B));
  for (size_t k : pos) for (int v = 0; v < 4; ++v) {
    auto get = [&]() -> std::pair<VP, VW> { if (v == 0) { auto [l, u, p, w] = b.at(k); return {p, w}; } if (v == 1) { auto [l, u, p, w] = cb.at(k); return {p, w}; } if (v == 2) { auto [l, u, p, w] = *(b.begin() + (int)k); return {p, w}; } auto [l, u, p, w] = *(cb.cbegin() + (int)k); return {p, w}; };
    auto [p, w] = get(); size_t e = k + 1 < B ? off[k + 1] : n; static const char* VN[] = {"at", "const at", "begin +", "cbegin +"};
    if (!c.okf(p.size() == e - off[k] && w.size() == p.size() && std::equal(p.begin(), p.end(), b.points().begin() + off[k]) && std::equal(w.begin(), w.end(), b.weights().begin() + off[k]), "at", [&] { return fmt("%s: %s %zu of %zu batches is not the one reached by iteration", c.cur.c_str(), VN[v], k, B); })) return;
  }
  for (size_t k : {B, B + 1, B + 65536, B + (1ul << 32), (size_t)-1}) { bool t1 = false, t2 = false; try { b.at(k); } catch (const std::exception&) { t1 = true; } try { cb.at(k); } catch (const std::exception&) { t2 = true; } c.okf(t1 && t2, "at", [&] { return fmt("at(%zu) of %zu batches does not throw", k, B); }); }
  c.stat("batch positions of large batchers checked", pos.size() * 4);
  // copies, clones and moves of it, at other centres
  auto same = [&](const Bt& x, const Bt& y, const char* what) { // same batches of the same points
    c.stat("large batchers duplicated"); if (!c.okf(x.nbatches() == B && x.npts() == n && x.max_batch_size() == lim && same_vec(x.points(), y.points()) && same_vec(x.weights(), y.weights()) && same_bits(x.quadrature().center(), y.quadrature().center()), "count", [&] { return fmt("%s: %s has %zu of %zu batches, or other points", c.cur.c_str(), what, x.nbatches(), B); })) return;
    size_t k = 0; for (auto it = x.cbegin(); !same_pos(it, x.cend()) && k < B; ++it, ++k) { auto r = it.range(); if (!c.okf((size_t)(&*std::get<1>(r) - x.points().data()) == off[k] && std::get<0>(r) == (k + 1 < B ? off[k + 1] : n) - off[k], "range", [&] { return fmt("%s: batch %zu of %s is another range", c.cur.c_str(), k, what); })) return; }
  };
  { Bt k = b.clone(); same(k, b, "the clone"); }
  P3 to = {g.uni(-8, 8), g.uni(-8, 8), g.uni(-8, 8)}; b.recenter(to); c.ok(same_bits(b.quadrature().center(), to), "center", c.cur + ": centre after recenter");
  { Bt k = b.clone(); same(k, b, "the clone of the recentred one"); Bt d(static_cast<const Bt&>(b)); same(d, b, "the copy"); k.recenter({1, 2, 3}); Bt m(std::move(k)); Bt e = m.clone(); same(e, m, "the clone of the moved one"); d.recenter({1, 2, 3}); same(d, m, "the recentred copy"); }
}
static void c17(Ctx& c) {
  struct { size_t nr, na, lim; } big[] = {{60, 194, 1}, {40, 974, 1}, {75, 974, 1}, {3, 110, 1}, {20, 302, 2}};
  for (auto& x : big) if (c.begin(fmt("many batches %zu x %zu limit %zu", x.nr, x.na, x.lim))) c.guard([&] { auto g = c.case_rng(); c.nontriv(); many(c, g, x.nr, x.na, x.lim); });
  for (size_t n = 1; n <= (c.thorough ? 3000u : 1100u); ++n) if (c.begin(fmt("size %zu", n))) c.guard([&] { // every number of points, many numbers of batches
    auto g = c.case_rng(); Live L; size_t bsz = n < 400 && g.coin() ? 1 : 1 + g.below(g.coin() ? 8 : 600); L.b = std::make_unique<Bt>(make_batcher(bsz, cloud(g, 2 + (int)g.below(3), n))); learn(L); std::string log = fmt(" making batches of %zu from %zu points", bsz, n); c.nontriv(fmt("%zu points limit %zu", n, bsz)); c.stat("sizes visited in sequence");
    if (!check_live(c, g, L, log)) return;
    auto move = [&](Live& x) { P3 nc = {g.uni(-8, 8), g.uni(-8, 8), g.uni(-8, 8)}; LD m = 0; for (auto& v : x.rel) for (auto& q : v) m = std::max(m, mag(q)); x.b->recenter(nc); x.tol += 8 * EPS * (m + mag(nc) + mag(x.cen)); x.cen = nc; log += " recenter"; };
    Live k; k.b = std::make_unique<Bt>(L.b->clone()); k.rel = L.rel; k.w = L.w; k.cen = L.cen; k.tol = L.tol; k.mx = L.mx; move(L); if (!check_live(c, g, L, log) || !check_live(c, g, k, log + " (the clone)")) return;
    move(k); if (!check_live(c, g, k, log) || !check_live(c, g, L, log)) return;
    L.b = std::make_unique<Bt>(std::move(*k.b)); L.cen = k.cen; L.tol = k.tol; check_live(c, g, L, log + " move");
  });
  int N = c.thorough ? 30000 : 8000;
  for (int t = 0; t < N; ++t) {
    if (!c.begin(fmt("history %d", t))) continue;
    c.guard([&] {
      auto g = c.case_rng(); std::vector<Live> pool; std::string log = " new", sig; pool.push_back(make_live(c, g));
      int steps = (int)g.in(3, 25);
      for (int s = 0; s < steps; ++s) {
        size_t i = g.below(pool.size()); int op = (int)g.below(8);
        if (op <= 2) {
          P3 nc = g.coin(0.2) ? pool[i].cen : P3{g.uni(-8, 8), g.uni(-8, 8), g.coin(0.3) ? 0 : g.uni(-8, 8)};
          LD m = 0; for (auto& v : pool[i].rel) for (auto& x : v) m = std::max(m, mag(x));
          const P3* to = &nc; if (g.coin(0.15)) { auto& P = pool[g.coin(0.7) ? i : g.below(pool.size())].b->points(); auto& q = P[g.below(P.size())]; bool neg = false; for (double v : q) neg = neg || (v == 0 && std::signbit(v)) || !(std::fabs(v) < 1e12); if (!neg) { nc = q; to = &q; } } // a point as it is stored
          if (g.coin()) pool[i].b->recenter(*to); else pool[i].b->quadrature().recenter(*to);
          pool[i].tol += 8 * EPS * (m + mag(nc) + mag(pool[i].cen)); pool[i].cen = nc; log += fmt(" recenter#%zu", i); sig += 'r';
        } else if (op == 3 && pool.size() < 5) { Live n; n.b = std::make_unique<Bt>(pool[i].b->clone()); n.rel = pool[i].rel; n.w = pool[i].w; n.cen = pool[i].cen; n.tol = pool[i].tol; n.mx = pool[i].mx; pool.push_back(std::move(n)); log += fmt(" clone#%zu", i); sig += 'c'; }
        else if (op == 4) { pool[i].b = std::make_unique<Bt>(std::move(*pool[i].b)); log += fmt(" move#%zu", i); sig += 'm'; }
        else if (op == 5) { // a copy outlives the original
          auto n = std::make_unique<Bt>(static_cast<const Bt&>(*pool[i].b)); pool[i].b = std::move(n); log += fmt(" copy-and-drop#%zu", i); sig += 'k';
        } else if (op == 6 && pool.size() > 1) { pool.erase(pool.begin() + i); log += fmt(" drop#%zu", i); sig += 'd'; }
        else if (pool.size() < 5) { pool.push_back(make_live(c, g)); log += " new"; sig += 'n'; }
        else { auto& L = pool[i]; size_t b = g.below(L.rel.size()), off = 0; for (size_t k = 0; k < b; ++k) off += L.w[k].size(); size_t j = g.below(L.w[b].size()); double v = g.uni(-1, 1); L.b->weights()[off + j] = v; L.w[b][j] = v; log += fmt(" write#%zu", i); sig += 'w'; }
        for (auto& L : pool) if (!check_live(c, g, L, log)) return;
        c.stat("operations");
      }
      c.nontriv(sig);
    });
  }
}
int main(int argc, char** argv) {
  Ctx c; c.init(argc, argv);
  if (c.prop == "C15") c1516(c, false); else if (c.prop == "C16") c1516(c, true); else if (c.prop == "C17") c17(c); else return 71;
  return c.finish();
}
