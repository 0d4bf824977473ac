// C11 spherical product grids, C12 pruned grids, C14 re-centring and copies.
#include "grids.hpp"

// Rules a user brings: angular points on a spiral in any number, in directions
// of any length; and radial shells of the user's choice, from zero on.
struct Spiral; struct Shells;
namespace IntegratorXX {
template <> struct quadrature_traits<Spiral> {
  using point_type = P3; using weight_type = double; using point_container = VP; using weight_container = VW;
  static std::tuple<VP, VW> generate(size_t n, double len, uint64_t seed) {
    Rng g(seed); VP p(n); VW w(n);
    for (size_t i = 0; i < n; ++i) { double z = 1 - (2 * i + 1.0) / n, s = std::sqrt(1 - z * z), f = 2.399963229728653 * i; p[i] = {len * s * std::cos(f), len * s * std::sin(f), len * z}; w[i] = 12.566370614359172 / n * g.uni(0.5, 1.5); }
    return std::make_tuple(p, w);
  }
};
template <> struct quadrature_traits<Shells> {
  using point_type = double; using weight_type = double; using point_container = VW; using weight_container = VW;
  static std::tuple<VW, VW> generate(size_t n, bool zero, double step, uint64_t seed) {
    Rng g(seed); VW r(n), w(n); double x = zero ? 0 : step * g.uni(0.01, 1);
    for (size_t i = 0; i < n; ++i) { r[i] = x; x += step * g.uni(0.2, 1.8); w[i] = g.uni(-0.2, 1); }
    return std::make_tuple(r, w);
  }
};
}
struct Spiral : Quadrature<Spiral> { Spiral(size_t n, double len, uint64_t s) : Quadrature<Spiral>(n, len, s) {} };
struct Shells : Quadrature<Shells> { Shells(size_t n, bool z, double st, uint64_t s) : Quadrature<Shells>(n, z, st, s) {} };
using UTR = UniformTrapezoid<double, double>;
// sizes next to powers of two, where blocked or unrolled loops have their tails
static size_t structured(Rng& r, int top) { size_t n = size_t(1) << r.below(top + 1); int d = (int)r.below(4); if (d == 1) ++n; else if (d == 2 && n > 1) --n; return n; }
struct UserCase { int k, a; size_t nr; std::vector<size_t> na; P3 cen; double step; bool zero; double len; uint64_t seed; int route; };
template <class R, class A> static void user_grid(Ctx& c, const UserCase& u, const R& rq, const std::vector<A>& aq, const std::vector<size_t>& cut, const std::string& what) {
  Rad rad{rq.points(), rq.weights()}; std::vector<Ang> angs; for (auto& q : aq) angs.push_back({q.points(), q.weights()});
  std::vector<Region> rs; for (size_t i = 0; i < aq.size(); ++i) rs.push_back({cut[i], cut[i + 1], &angs[i]});
  auto judge = [&](auto& s, const char* kind) { c.ok(s.npts() == s.points().size() && s.weights().size() == s.npts(), std::string(kind) + ":size", what); c.ok(same_bits(s.center(), u.cen), "center", what); compare_grid(c, kind, rad, rs, u.cen, s.points(), s.weights(), what); };
  const bool z = u.cen == P3{0, 0, 0};
  if (c.prop == "C11") {
    using S = SphericalQuadrature<R, A>;
    if (u.route == 0 || !z) { S s(rq, aq[0], u.cen); judge(s, "spherical"); S t(s); judge(t, "spherical"); auto b = t.clone(); S m(std::move(t)); judge(m, "spherical"); judge(*b, "spherical"); }
    else if (u.route == 1) { S s(rq, aq[0]); judge(s, "spherical"); }
    else { auto s = SphericalGridFactory::generate_unpruned_grid(rq, aq[0]); judge(*s, "spherical"); }
  } else {
    using S = PrunedSphericalQuadrature<R, A>; RadialGridPartition<A> p;
    for (size_t i = 0; i < aq.size(); ++i) p.add_quad(rq, cut[i], aq[i]);
    p.finalize(rq);
    if (u.route == 0 || !z) { S s(rq, p, u.cen); judge(s, "pruned"); S t(s); judge(t, "pruned"); auto b = t.clone(); S m(std::move(t)); judge(m, "pruned"); judge(*b, "pruned"); }
    else if (u.route == 1) { S s(rq, p); judge(s, "pruned"); }
    else { auto s = SphericalGridFactory::generate_pruned_grid(rq, p); judge(*s, "pruned"); }
  }
  c.ok(same_vec(rq.points(), rad.r) && same_vec(rq.weights(), rad.w), "ingredients", what); for (size_t i = 0; i < aq.size(); ++i) c.ok(same_vec(aq[i].points(), angs[i].p) && same_vec(aq[i].weights(), angs[i].w), "ingredients", what);
}
static void every_size(Ctx& c) { // every number of radii and of directions, and of points of one region
  const size_t top = c.thorough ? 3000 : 1100;
  for (size_t n = 1; n <= top + 60; ++n) if (c.begin(fmt("every size %zu", n))) c.guard([&] {
    Rng r = c.case_rng(); if (n > top) { n = (size_t(1) << (10 + (n - top) / 6)) - 1 + (n - top) % 3; if (n > 200000) return; }
    for (int v = 0; v < 2; ++v) {
      UserCase u; u.k = 1; u.a = 0; u.seed = r.next(); u.zero = false; u.len = 1; u.step = 0.3; u.route = (int)r.below(3); u.cen = r.coin() ? P3{0, 0, 0} : P3{1, -2, 0.5}; size_t m = 1 + r.below(3);
      u.nr = v ? n : m; std::vector<size_t> cut = {0}; u.na = {v ? m : n}; if (c.prop == "C12" && r.coin()) { size_t e = 1 + r.below(3); if (r.coin()) { cut.push_back(u.nr); u.na.push_back(7); } else { cut.push_back(e); u.na.insert(u.na.begin(), 5); } u.nr += e; } cut.push_back(u.nr);
      std::string w = fmt("%zu shells x", u.nr); for (size_t j = 0; j < u.na.size(); ++j) w += fmt(" %zu:%zu", cut[j], u.na[j]); c.nontriv(w);
      std::vector<Spiral> q; for (auto k : u.na) q.emplace_back(k, u.len, u.seed + k); user_grid(c, u, Shells(u.nr, u.zero, u.step, u.seed), q, cut, w);
    }
    c.stat("sizes visited in sequence");
  });
}
static void user_rules(Ctx& c) {
  const int N = c.thorough ? 15000 : 3000;
  for (int i = 0; i < N; ++i) if (c.begin(fmt("user rules #%d", i))) c.guard([&] {
    Rng r = c.case_rng(); UserCase u; u.k = i % 3; u.a = (i / 3) % 2; u.route = (i / 6) % 3; u.seed = r.s; u.zero = r.coin(0.4); u.len = r.coin(0.6) ? 1 : r.logu(0.1, 10); u.step = r.logu(1e-3, 10);
    u.cen = r.coin(0.6) ? P3{0, 0, 0} : rand_center(r);
    u.nr = r.coin(0.5) ? structured(r, 9) : (size_t)r.in(1, 200); if (i % 251 == 250) u.nr = structured(r, 13) + (size_t)r.below(3);
    if (u.k == 0 && u.nr < 2) u.nr = 2;
    size_t nreg = c.prop == "C11" ? 1 : 1 + r.below(std::min<size_t>(u.nr, 5)); std::set<size_t> s = {0}; while (s.size() < nreg) s.insert(r.coin(0.5) ? std::min(structured(r, 9), u.nr - 1) : r.below(u.nr)); std::vector<size_t> cut(s.begin(), s.end()); cut.push_back(u.nr);
    size_t top = 1; while (top < 12 && (size_t(2) << top) * u.nr <= 400000) ++top;
    for (size_t j = 0; j < nreg; ++j) u.na.push_back(u.a == 1 ? (j || r.coin(0.3) ? pick_ang(r, 3, 300000 / u.nr) : u.nr < 9000 ? 32 : 6) : r.coin(0.5) ? structured(r, (int)top) : (size_t)r.in(1, 1 << std::min<size_t>(top, 8)));
    static const char* K[] = {"UniformTrapezoid", "Shells", "MuraKnowles"}; static const char* A[] = {"Spiral", "Womersley"};
    std::string w = fmt("%s%s n=%zu x %s", K[u.k], u.zero && u.k < 2 ? " from 0" : "", u.nr, A[u.a]); for (size_t j = 0; j < nreg; ++j) w += fmt(" %zu:%zu", cut[j], u.na[j]); w += fmt(" length %.3g route %d", u.len, u.route); c.nontriv(w);
    auto rule = [&](const auto& rq) {
      if (u.a == 0) { std::vector<Spiral> q; for (auto n : u.na) q.emplace_back(n, u.len, u.seed + n); user_grid(c, u, rq, q, cut, w); }
      else { std::vector<WOQ> q; for (auto n : u.na) q.emplace_back(n); user_grid(c, u, rq, q, cut, w); }
    };
    if (u.k == 0) { double lo = u.zero ? 0 : u.step; rule(UTR(u.nr, lo, lo + u.step * u.nr)); } else if (u.k == 1) rule(Shells(u.nr, u.zero, u.step, u.seed)); else rule(MKQ(u.nr, u.step));
    c.stat(fmt("grids of %s radii on %s directions", K[u.k], A[u.a]));
  });
}
// integral of x^a y^b z^c exp(-s r^2) about the centre
static LD gauss_moment(int a, int b, int cc, LD s) {
  if ((a | b | cc) & 1) return 0;
  auto one = [&](int n) { return tgammal((n + 1) / 2.0L) / powl(s, (n + 1) / 2.0L); };
  return one(a) * one(b) * one(cc);
}
static void integrate(Ctx& c, const char* what, Rng& g, const VP& p, const VW& w, const P3& cen, LD scale, int deg, LD tol, const std::string& ctx) {
  for (int t = 0; t < 4; ++t) {
    int e[3] = {0, 0, 0}; int d = t == 0 ? 0 : (int)g.below(deg + 1); for (int k = 0; k < d; ++k) ++e[g.below(3)];
    LD s = g.uni(0.7, 1.4) / (scale * scale), sum = 0, norm = 0;
    for (size_t i = 0; i < p.size(); ++i) {
      LD x[3]; for (int k = 0; k < 3; ++k) x[k] = ((LD)p[i][k] - cen[k]); LD r2 = x[0] * x[0] + x[1] * x[1] + x[2] * x[2], f = expl(-s * r2);
      for (int k = 0; k < 3; ++k) for (int m = 0; m < e[k]; ++m) f *= x[k] / scale; sum += w[i] * f; norm += fabsl(w[i] * f);
    }
    LD ex = gauss_moment(e[0], e[1], e[2], s * scale * scale) * scale * scale * scale;
    LD err = fabsl(sum - ex) / std::max(norm, scale * scale * scale);
    c.peak(std::string(what) + " integral error / tolerance", err / tol);
    c.okf(err <= tol, std::string(what) + ":integral", [&] { return fmt("%s: integral of x^%d y^%d z^%d exp(-%.3Lg r^2) is %.12Lg, exact %.12Lg", ctx.c_str(), e[0], e[1], e[2], s, sum, ex); });
    c.stat("integrals checked");
  }
}
// A user may hand over any rule: one whose coordinates are permuted and
// reflected and whose weights are scaled, or radii moved by the user.
static void twist(Rng g, VP& p, VW& w) {
  int ax[3] = {0, 1, 2}; for (int i = 2; i > 0; --i) std::swap(ax[i], ax[g.below(i + 1)]); double sg[3], f = g.uni(0.5, 2); for (auto& x : sg) x = g.coin() ? 1 : -1;
  for (auto& q : p) { P3 o = q; for (int k = 0; k < 3; ++k) q[k] = sg[k] * o[ax[k]] + 0.0; }
  int how = (int)g.below(3); for (size_t i = 0; i < w.size(); ++i) w[i] *= how == 0 ? f : how == 1 ? f * g.uni(0.9, 1.1) : 1;
}
static void twist(Rng g, VW& r, VW& w) { double f = g.uni(0.5, 2); bool neg = g.coin(0.2); for (auto& x : r) x *= f; for (auto& x : w) { x *= g.uni(0.5, 2); if (neg && g.coin(0.3)) x = -x; } }
// the same grid in other units of length
static double unit_of(Rng& r) { return r.coin(0.25) ? std::pow(10.0, r.coin(0.7) ? -(double)r.in(4, 14) : (double)r.in(4, 9)) : 1.0; }
static const char* ROUTE[] = {"constructor", "constructor with centre", "copied", "typed factory", "runtime factory", "specification", "unpruned scheme", "clone"};
static void c11(Ctx& c) {
  auto r = c.rng("c11");
  int N = c.thorough ? 20000 : 4800;
  for (int t = 0; t < N; ++t) {
    int k = t % 4, a = (t / 4) % 4, route = (t / 16) % 8;
    size_t nr = r.coin(0.3) ? r.in(1, 4) : (size_t)r.logu(4, 160), na = pick_ang(r, a, 200000 / nr);
    if (t % 401 == 400) { nr = (size_t)r.in(250, 3000); na = pick_ang(r, a, 400); } else if (t % 797 == 796) { nr = (size_t)r.in(65500, 67000); na = pick_ang(r, a, 7); }
    double R = r.coin(0.3) ? 1.0 : r.logu(0.05, 20), al = r.coin(0.5) ? 0.6 : r.coin(0.2) ? r.uni(1, 4) : r.uni(0, 1);
    P3 cen = route == 1 || route == 2 || route == 7 ? rand_center(r) : P3{0, 0, 0};
    const double unit = unit_of(r); R *= unit; if (!r.coin(0.2)) for (auto& x : cen) x *= unit;
    const bool tw = (route <= 3 || route == 7) && r.coin(0.4); const Rng tg = r.split();
    if (!c.begin(fmt("%s x %s nr=%zu na=%zu R=%.6g via %s #%d", RN[k], AN[a], nr, na, R, ROUTE[route], t))) continue;
    if (nr > 1) c.nontriv(fmt("%s x %s nr=%zu na=%zu via %s", RN[k], AN[a], nr, na, ROUTE[route]));
    c.guard([&] {
      auto g = c.case_rng();
      auto tr = traits_of(k, nr, R, al); Rad rad = radial(k, *tr); Ang ang = angular(a, na);
      if (tw) { twist(tg, ang.p, ang.w); twist(tg, rad.r, rad.w); c.stat("products of rules changed by the user"); }
      if (unit != 1) c.stat("grids in other units of length");
      VP p; VW w; P3 got = cen; bool have = true; size_t np = 0;
      if (route <= 3 || route == 7) with_radial(k, [&](auto tr_) { with_angular(a, [&](auto ta) {
        using RT = typename decltype(tr_)::type; using AT = typename decltype(ta)::type; using S = SphericalQuadrature<RT, AT>;
        RT rq(*tr); AT aq(na);
        if (tw) { twist(tg, aq.points(), aq.weights()); twist(tg, rq.points(), rq.weights()); }
        if (route == 0) { S s(rq, aq); p = s.points(); w = s.weights(); got = s.center(); np = s.npts(); }
        else if (route == 1) { S s(rq, aq, cen); p = s.points(); w = s.weights(); got = s.center(); np = s.npts(); const Base& b = s; have = same_vec(b.points(), p) && same_vec(b.weights(), w) && b.npts() == np; }
        else if (route == 2) { S s0(rq, aq, cen); S s(s0); s0.weights().assign(s0.npts(), 0); S m(std::move(s)); p = m.points(); w = m.weights(); got = m.center(); np = m.npts(); }
        else if (route == 3) { auto s = SphericalGridFactory::generate_unpruned_grid(rq, aq); p = s->points(); w = s->weights(); got = s->center(); np = s->npts(); }
        else { S s0(rq, aq, cen); auto s = s0.clone(); p = s->points(); w = s->weights(); got = s->center(); np = s->npts(); }
        // the ingredients are not modified
        c.ok(same_vec(rq.points(), rad.r) && same_vec(rq.weights(), rad.w) && same_vec(aq.points(), ang.p) && same_vec(aq.weights(), ang.w), "ingredients", "building the product changed its factors");
      }); });
      else {
        BasePtr s;
        if (route == 4) s = SphericalGridFactory::generate_unpruned_grid(RQ[k], *tr, AQ[a], na);
        else { UnprunedSphericalGridSpecification u(RQ[k], *tr, AQ[a], na); s = route == 5 ? SphericalGridFactory::generate_grid(u) : SphericalGridFactory::generate_grid(create_pruned_spec(PruningScheme::Unpruned, u)); }
        p = s->points(); w = s->weights(); got = s->center(); np = s->npts();
      }
      c.stat(std::string("built by ") + ROUTE[route]);
      c.ok(have, "views", "base and derived views differ");
      c.ok(np == p.size(), "spherical:size", fmt("npts() is %zu with %zu points", np, p.size()));
      c.ok(same_bits(got, cen), "center", fmt("center() is (%g %g %g), requested (%g %g %g)", got[0], got[1], got[2], cen[0], cen[1], cen[2]));
      compare_grid(c, "spherical", rad, {{0, nr, &ang}}, cen, p, w, c.cur);
      double cm = std::max({std::fabs(cen[0]), std::fabs(cen[1]), std::fabs(cen[2])});
      if (!tw && nr >= 60 && (k != 1 || al == 0.6) && cm < 100 * unit && !(a == 2 && na == 5472)) integrate(c, "spherical", g, p, w, cen, k == 3 ? R / 2 : R, (int)std::min<int64_t>(order_of(a, na), 6), (k == 0 ? 3e-5L : 1e-5L) * (1 + cm / R * 1e-6L), c.cur);
    });
  }
}
// ------------------------------------------------------------------------ C12
static void c12(Ctx& c) {
  auto r = c.rng("c12");
  static const char* PR[] = {"variadic partition", "add_quad", "copied partition", "assigned partition", "runtime factory", "specification", "typed factory", "copied grid"};
  int N = c.thorough ? 20000 : 4800;
  for (int t = 0; t < N; ++t) {
    int k = t % 4, a = (t / 4) % 4, route = (t / 16) % 8;
    size_t nr = r.coin(0.3) ? r.in(1, 5) : (size_t)r.logu(4, 150);
    if (t % 401 == 400) nr = (size_t)r.in(250, 3000); else if (t % 797 == 796) nr = (size_t)r.in(65500, 67000);
    size_t nreg = 1 + r.below(std::min<size_t>(nr, r.coin(0.2) ? 12 : 4));
    if (route == 0) nreg = std::min<size_t>(nreg, 3);
    std::vector<size_t> cut; { std::set<size_t> s; while (s.size() < nreg - 1) s.insert(1 + r.below(nr - 1)); cut.assign(s.begin(), s.end()); cut.insert(cut.begin(), 0); cut.push_back(nr); }
    std::vector<size_t> na; for (size_t i = 0; i < nreg; ++i) na.push_back(pick_ang(r, a, nr > 60000 ? 7 : nr > 160 ? 400 : 150000 / nr));
    double R = r.coin(0.3) ? 1.0 : r.logu(0.05, 20);
    P3 cen = route < 4 || route == 7 ? rand_center(r) : P3{0, 0, 0};
    const double unit = unit_of(r); R *= unit; if (!r.coin(0.2)) for (auto& x : cen) x *= unit;
    const bool cls = route != 4 && route != 5; const bool tw = cls && r.coin(0.4); const Rng tg = r.split(); std::vector<Rng> tgs; for (size_t i = 0; i < nreg; ++i) tgs.push_back(r.split());
    if (cls && r.coin(0.3)) for (size_t i = 1; i < nreg; ++i) if (r.coin(0.7)) na[i] = na[0]; // regions of equal size
    std::string nm = fmt("%s x %s nr=%zu regions", RN[k], AN[a], nr); for (size_t i = 0; i < nreg; ++i) nm += fmt(" %zu:%zu", cut[i], na[i]);
    nm += fmt(" via %s #%d", PR[route], t);
    if (!c.begin(nm)) continue;
    if (nreg > 1) c.nontriv(nm);
    c.guard([&] {
      auto g = c.case_rng();
      auto tr = traits_of(k, nr, R); Rad rad = radial(k, *tr);
      std::vector<Ang> angs; for (auto n : na) angs.push_back(angular(a, n));
      if (tw) { for (size_t i = 0; i < nreg; ++i) twist(tgs[i], angs[i].p, angs[i].w); twist(tg, rad.r, rad.w); c.stat("grids of rules changed by the user"); }
      if (unit != 1) c.stat("grids in other units of length");
      std::vector<Region> rs; for (size_t i = 0; i < nreg; ++i) rs.push_back({cut[i], cut[i + 1], &angs[i]});
      VP p; VW w; P3 got = cen; size_t np = 0;
      if (route != 4 && route != 5) with_radial(k, [&](auto tr_) { with_angular(a, [&](auto ta) {
        using RT = typename decltype(tr_)::type; using AT = typename decltype(ta)::type; using S = PrunedSphericalQuadrature<RT, AT>; using Part = RadialGridPartition<AT>;
        RT rq(*tr); std::vector<AT> aq; for (auto n : na) aq.emplace_back(n);
        if (tw) { for (size_t i = 0; i < nreg; ++i) twist(tgs[i], aq[i].points(), aq[i].weights()); twist(tg, rq.points(), rq.weights()); }
        Part part;
        if (route == 0) {
          if (nreg == 1) part = Part(rq, cut[0], aq[0]);
          else if (nreg == 2) part = Part(rq, cut[0], aq[0], cut[1], aq[1]);
          else part = Part(rq, cut[0], aq[0], cut[1], aq[1], cut[2], aq[2]);
        } else { for (size_t i = 0; i < nreg; ++i) part.add_quad(rq, cut[i], aq[i]); part.finalize(rq); }
        if (route == 2) { Part q(part); Part m(std::move(q)); part = std::move(m); }
#ifndef WITHOUT_ASSIGN
        if (route == 2) { Part q(part); part = Part(); part.add_quad(rq, 0, aq[0]); part.finalize(rq); Part m(std::move(q)); part = m; }
        if (route == 3) { Part q; q = part; part.partition_idx().assign(1, 0); Part m; m = std::move(q); part = m; }
        if (r.coin(0.4)) { // assigned over a partition of another shape
          Part o; for (size_t l = 0, st = 0, k = r.below(6); l < k && st < nr; ++l, st += 1 + r.below(nr)) o.add_quad(rq, st, r.coin() ? aq[r.below(nreg)] : AT(ang_sizes()[a][r.below(4)])); if (o.partition_idx().size()) o.finalize(rq);
          if (r.coin()) { Part t(part); o = std::move(t); } else o = part;
          if (r.coin()) part = o; else part = std::move(o);
          c.stat("partitions assigned over others");
        }
#endif
        // walking the partition gives back the regions
        size_t i = 0; const Part& cp = part;
        for (auto it = cp.begin(); it != cp.end(); ++it, ++i) { auto [range, q] = *it; if (i < nreg) c.okf(range.first == cut[i] && range.second == cut[i + 1] && q.npts() == na[i] && same_vec(q.points(), angs[i].p) && same_vec(q.weights(), angs[i].w), "partition", [&] { return fmt("region %zu is [%zu,%zu) with %zu points", i, range.first, range.second, q.npts()); }); }
        c.ok(i == nreg, "partition", fmt("partition of %zu regions walks %zu", nreg, i));
        if (route == 6) { auto s = SphericalGridFactory::generate_pruned_grid(rq, part); p = s->points(); w = s->weights(); got = s->center(); np = s->npts(); }
        else if (route == 7) { S s0(rq, part, cen); S s1(s0); s0.points().clear(); s0.weights().clear(); auto s = s1.clone(); s1.weights().assign(s1.npts(), 0); p = s->points(); w = s->weights(); got = s->center(); np = s->npts(); }
        else { S s(rq, part, cen); p = s.points(); w = s.weights(); got = s.center(); np = s.npts(); const Base& b = s; c.ok(same_vec(b.points(), p) && same_vec(b.weights(), w) && b.npts() == np, "views", "base and derived views differ"); }
      }); });
      else {
        std::vector<PruningRegion> regs; for (size_t i = 0; i < nreg; ++i) regs.push_back({cut[i], cut[i + 1], AQ[a], na[i]});
        BasePtr s = route == 4 ? SphericalGridFactory::generate_pruned_grid(RQ[k], *tr, regs) : SphericalGridFactory::generate_grid(PrunedSphericalGridSpecification(RQ[k], *tr, regs));
        p = s->points(); w = s->weights(); got = s->center(); np = s->npts();
      }
      c.stat(std::string("built by ") + PR[route]); c.stat("regions", nreg);
      c.ok(np == p.size(), "pruned:size", fmt("npts() is %zu with %zu points", np, p.size()));
      c.ok(same_bits(got, cen), "center", fmt("center() is (%g %g %g), requested (%g %g %g)", got[0], got[1], got[2], cen[0], cen[1], cen[2]));
      compare_grid(c, "pruned", rad, rs, cen, p, w, c.cur);
      int64_t deg = 6; bool exact = true; for (auto n : na) { deg = std::min(deg, order_of(a, n)); if (a == 2 && n == 5472) exact = false; }
      double cm = std::max({std::fabs(cen[0]), std::fabs(cen[1]), std::fabs(cen[2])});
      if (!tw && nr >= 60 && cm < 100 * unit && exact) integrate(c, "pruned", g, p, w, cen, k == 3 ? R / 2 : R, (int)deg, (k == 0 ? 3e-5L : 1e-5L) * (1 + cm / R * 1e-6L), c.cur);
    });
  }
}
// ------------------------------------------------------------------------ C14
// Histories over a pool of grids: every object is shadowed by a model (grid
// about the origin, centre, rounding bound) and all objects are compared after
// every step.
struct Obj { BasePtr q; int type; P3 cen; VP rel; VW w; LD tol; };
using T0 = SphericalQuadrature<BKQ, LLQ>; using T1 = PrunedSphericalQuadrature<MKQ, LLQ>; using T2 = SphericalQuadrature<TAQ, WOQ>; using T3 = PrunedSphericalQuadrature<MHQ, DEQ>;
static LD mag(const P3& p) { return std::max({fabsl(p[0]), fabsl(p[1]), fabsl(p[2])}); }
static Obj fresh(Rng& g) {
  Obj o; o.type = (int)g.below(4); o.cen = rand_center(g); size_t nr = g.in(1, 8); P3 z = {0, 0, 0};
  double R = g.logu(0.1, 5); BasePtr at0;
  bool defc = g.coin(0.2); if (defc) o.cen = z;
  size_t cutp = nr > 1 ? 1 + g.below(nr - 1) : 0;
  auto build = [&](auto t, auto... a) { using T = typename decltype(t)::type; at0 = std::make_shared<T>(a...); o.q = defc ? std::make_shared<T>(a...) : std::make_shared<T>(a..., o.cen); };
  if (o.type == 0) build(tag<T0>{}, BKQ(nr, R), LLQ(pick_ang(g, 0, 60)));
  else if (o.type == 2) build(tag<T2>{}, TAQ(nr, R), WOQ(pick_ang(g, 3, 60)));
  else if (o.type == 1) { MKQ rq(nr, R); RadialGridPartition<LLQ> p; p.add_quad(rq, 0, LLQ(6)); if (cutp) p.add_quad(rq, cutp, LLQ(pick_ang(g, 0, 60))); p.finalize(rq); build(tag<T1>{}, rq, p); }
  else { MHQ rq(nr, R); RadialGridPartition<DEQ> p; p.add_quad(rq, 0, DEQ(14)); if (cutp) p.add_quad(rq, cutp, DEQ(pick_ang(g, 1, 60))); p.finalize(rq); build(tag<T3>{}, rq, p); }
  o.rel = at0->points(); o.w = at0->weights(); LD m = 0; for (auto& x : o.rel) m = std::max(m, mag(x)); o.tol = 4 * EPS * (m + mag(o.cen));
  return o;
}
template <class T> static BasePtr dup(const BasePtr& q, bool move) { auto& t = dynamic_cast<T&>(*q); if (move) return std::make_shared<T>(std::move(t)); return std::make_shared<T>(static_cast<const T&>(t)); }
static bool check_obj(Ctx& c, const Obj& o, const std::string& log, const char* what) {
  auto bad = [&](const char* key, const std::string& m) { c.violation(key, fmt("%s | %s after %s", m.c_str(), what, log.substr(log.size() > 400 ? log.size() - 400 : 0).c_str())); return false; };
  ++c.checks; c.stat("object comparisons");
  const Base& q = *o.q;
  if (!same_bits(q.center(), o.cen)) return bad("center", fmt("center() (%g %g %g) instead of (%g %g %g)", q.center()[0], q.center()[1], q.center()[2], o.cen[0], o.cen[1], o.cen[2]));
  if (q.npts() != o.rel.size() || q.points().size() != o.rel.size() || q.weights().size() != o.w.size()) return bad("size", fmt("%zu points instead of %zu", q.npts(), o.rel.size()));
  if (!same_vec(q.weights(), o.w)) return bad("weights", "weights changed");
  for (size_t i = 0; i < o.rel.size(); ++i) for (int k = 0; k < 3; ++k) {
    LD d = fabsl((LD)q.points()[i][k] - ((LD)o.rel[i][k] + o.cen[k]));
    if (!(d <= o.tol)) return bad("points", fmt("point %zu is %.3Lg away from centre + offset (bound %.3Lg)", i, d, o.tol));
  }
  return true;
}
// every number of points: moving, cloning, copying and moving back
template <class S> static void c14_size(Ctx& c, Rng& r, const S& at0, const std::string& w) {
  Obj o; o.rel = at0.points(); o.w = at0.weights(); LD m = 0; for (auto& x : o.rel) m = std::max(m, mag(x)); o.cen = P3{0, 0, 0}; o.tol = 4 * EPS * m; auto s = std::make_shared<S>(at0); o.q = s;
  std::string log = w; auto go = [&](Obj& x, P3 nc) { x.q->recenter(nc); x.tol += 6 * EPS * (mag(nc) + mag(x.cen) + m); x.cen = nc; log += fmt(" recenter(%g,%g,%g)", nc[0], nc[1], nc[2]); };
  if (!check_obj(c, o, log, "the grid")) return;
  P3 a = {r.uni(-3, 3), r.uni(-3, 3), r.uni(-3, 3)}; go(o, a); if (!check_obj(c, o, log, "the grid")) return;
  Obj cl = o; cl.q = o.q->clone(); Obj cp = o; cp.q = std::make_shared<S>(static_cast<const S&>(*s)); log += " clone copy";
  if (!check_obj(c, cl, log, "the clone") || !check_obj(c, cp, log, "the copy")) return;
  P3 b = a; b[r.below(3)] = r.uni(-9, 9); go(cl, b); go(cp, P3{0, 0, 0});
  if (!check_obj(c, cl, log, "the clone") || !check_obj(c, cp, log, "the copy") || !check_obj(c, o, log, "the grid")) return;
  Obj mv = o; mv.q = std::make_shared<S>(std::move(*s)); log += " move"; go(mv, b); if (!check_obj(c, mv, log, "the moved grid")) return;
  c.stat("sizes visited in sequence");
}
static void c14_sizes(Ctx& c) {
  const size_t top = c.thorough ? 6000 : 2200;
  for (size_t n = 1; n <= top + 70; ++n) if (c.begin(fmt("size %zu", n))) c.guard([&] {
    Rng r = c.case_rng(); size_t k = n; if (n > top) { k = (size_t(1) << (10 + (n - top) / 6)) - 1 + (n - top) % 3; if (k > 600000) return; if ((n - top) / 3 % 2) k = k / 2 * 3 + (n - top) % 3; }
    c.nontriv(fmt("%zu points", k)); Spiral a(k, 1, r.next()); Shells h(1, false, 0.7, r.next());
    if (r.coin()) c14_size(c, r, SphericalQuadrature<Shells, Spiral>(h, a), fmt("%zu points in one shell", k));
    else { size_t m = k > 4 ? 1 + r.below(k - 1) : 1; if (m == k) m = k - (k > 1); if (k < 2) { c14_size(c, r, SphericalQuadrature<Shells, Spiral>(h, a), "one point"); return; } Shells h2(2, false, 0.7, r.next()); RadialGridPartition<Spiral> p; p.add_quad(h2, 0, Spiral(m, 1, r.next())); p.add_quad(h2, 1, Spiral(k - m, 1, r.next())); p.finalize(h2); c14_size(c, r, PrunedSphericalQuadrature<Shells, Spiral>(h2, p), fmt("shells of %zu and %zu points", m, k - m)); }
  });
}
static void c14(Ctx& c) {
  c14_sizes(c);
  int N = c.thorough ? 40000 : 12000;
  for (int t = 0; t < N; ++t) {
    if (!c.begin(fmt("history %d", t))) continue;
    c.guard([&] {
      auto g = c.case_rng(); std::vector<Obj> pool; std::string log; pool.push_back(fresh(g)); log = "new#0";
      int steps = (int)g.in(4, 40);
      std::string sig;
      for (int s = 0; s < steps; ++s) {
        size_t i = g.below(pool.size()); int op = (int)g.below(10);
        if (op <= 3) {
          P3 nc = g.coin(0.15) ? pool[i].cen : g.coin(0.2) ? P3{0, 0, 0} : rand_center(g);
          if (g.coin(0.2)) { nc = pool[i].cen; nc[g.below(3)] = g.uni(-2, 2); } // one component only
          else if (g.coin(0.25)) { nc = pool[i].cen; double st = std::pow(10, -(double)g.in(1, 15)) * g.uni(0.2, 1); int n = 1 + g.below(7); for (int k = 0; k < 3; ++k) if (n >> k & 1) nc[k] += g.coin() ? st : -st; for (auto& v : nc) v += 0.0; c.stat("recenterings by a small step"); } // creeping
          LD m = 0; for (auto& x : pool[i].rel) m = std::max(m, mag(x));
          if (g.coin(0.15)) { // onto a point of this grid or of another one, handed over as it is stored
            size_t j = g.coin(0.7) ? i : g.below(pool.size()), k = g.below(pool[j].q->points().size()); auto& src = pool[j].q->points()[k]; bool neg = false; for (double v : src) neg = neg || (v == 0 && std::signbit(v));
            if (!neg) { nc = src; pool[i].q->recenter(src); c.stat("recenterings onto a point of a grid"); } else pool[i].q->recenter(nc);
          } else pool[i].q->recenter(nc);
          pool[i].tol += 6 * EPS * (mag(nc) + mag(pool[i].cen) + m); pool[i].cen = nc; log += fmt(" recenter#%zu(%g,%g,%g)", i, nc[0], nc[1], nc[2]); sig += 'r';
        } else if (op == 4 && pool.size() < 6) { Obj o = pool[i]; o.q = pool[i].q->clone(); pool.push_back(o); log += fmt(" clone#%zu", i); sig += 'c'; }
        else if (op == 5 && pool.size() < 6) { Obj o = pool[i]; o.q = o.type == 0 ? dup<T0>(o.q, false) : o.type == 1 ? dup<T1>(o.q, false) : o.type == 2 ? dup<T2>(o.q, false) : dup<T3>(o.q, false); pool.push_back(o); log += fmt(" copy#%zu", i); sig += 'k'; }
        else if (op == 6) { Obj& o = pool[i]; o.q = o.type == 0 ? dup<T0>(o.q, true) : o.type == 1 ? dup<T1>(o.q, true) : o.type == 2 ? dup<T2>(o.q, true) : dup<T3>(o.q, true); log += fmt(" move#%zu", i); sig += 'm'; }
        else if (op == 7) { Obj& o = pool[i]; size_t j = g.below(o.w.size()); double v = g.uni(-1, 1); o.q->weights()[j] = v; o.w[j] = v; P3 np; for (int k = 0; k < 3; ++k) { double nv = g.uni(-3, 3); np[k] = nv; o.rel[j][k] = (double)((LD)nv - o.cen[k]); } o.q->points()[j] = np; o.tol += 4 * EPS * (mag(o.cen) + 3); log += fmt(" write#%zu[%zu]", i, j); sig += 'w'; }
        else if (op == 8 && pool.size() > 1) { pool.erase(pool.begin() + i); log += fmt(" drop#%zu", i); sig += 'd'; }
        else if (pool.size() < 6) { pool.push_back(fresh(g)); log += " new"; sig += 'n'; }
        for (auto& o : pool) if (!check_obj(c, o, log, "one of the grids")) return;
        c.stat("operations");
      }
      c.nontriv(sig);
    });
  }
}
int main(int argc, char** argv) {
  Ctx c; c.init(argc, argv);
  if (c.prop == "C11") { c11(c); user_rules(c); every_size(c); } else if (c.prop == "C12") { c12(c); user_rules(c); every_size(c); } else if (c.prop == "C14") c14(c); else return 71;
  return c.finish();
}
