// C09 invalid requests are rejected, C13 pruning schemes, C18 the runtime
// factories give what direct construction gives, C19 traits and grid
// specifications are values.
#include "grids.hpp"
#include <integratorxx/batch/spherical_micro_batcher.hpp>
#include <integratorxx/quadratures/primitive.hpp>
using US = UnprunedSphericalGridSpecification; using PS = PrunedSphericalGridSpecification;

// ------------------------------------------------------------------ helpers
// true when f threw a std::exception
template <class F> static int outcome(F&& f) { // 0 returned, 1 std::exception, 2 other
  try { f(); return 0; } catch (const std::exception&) { return 1; } catch (...) { return 2; }
}
template <class F> static void must_throw(Ctx& c, const char* key, const std::string& what, F&& f) {
  // what only the first of several attempts leaves behind is a table, not a leak
  int o = 1; long long left = 1;
  for (int i = 0; i < 3 && o == 1 && left != 0; ++i) { const long long live = vm::live_blocks; o = outcome(f); left = vm::live_blocks - live; }
  c.stat(std::string("invalid requests: ") + key);
  c.okf(o == 1, std::string(key) + ":accepted", [&] { return what + (o == 0 ? ": no exception" : ": thrown object is not a std::exception"); });
  c.okf(left == 0, std::string(key) + ":leak", [&] { return what + fmt(": %lld blocks left behind", left); });
}
template <class F> static void must_work(Ctx& c, const char* key, const std::string& what, F&& f) {
  std::string e; try { f(); } catch (const std::exception& x) { e = x.what(); if (e.empty()) e = "?"; } catch (...) { e = "non-std exception"; }
  c.stat(std::string("valid neighbours: ") + key);
  c.okf(e.empty(), std::string(key) + ":rejected", [&] { return what + ": valid request fails: " + e; });
}
static bool supported(int a, size_t n) { auto& s = ang_sizes()[a]; return n < 1000000 && std::find(s.begin(), s.end(), (int)n) != s.end(); }
static bool close(double a, double b) { return a == b || std::fabs(a - b) <= 1e-13 * std::max(std::fabs(a), std::fabs(b)); }
template <class A, class B> static bool close_w(const A& a, const B& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!close(a[i], b[i])) return false; return true; }
template <class A, class B> static bool close_p(const A& a, const B& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) { double m = 0; for (double x : a[i]) m = std::max(m, std::fabs(x)); for (int k = 0; k < 3; ++k) if (!(std::fabs(a[i][k] - b[i][k]) <= 1e-13 * m)) return false; }
  return true;
}
// all grids of one kind, in the order the library returns them
static bool same_grid(const Base& a, const Base& b) { return close_p(a.points(), b.points()) && close_w(a.weights(), b.weights()); }

struct RP { int k; size_t n; double R, al; };
static RP rand_rp(Rng& r, size_t top = 40) {
  RP p; p.k = (int)r.below(4); p.n = 1 + r.below(r.coin(0.3) ? 6 : top); p.R = r.coin(0.25) ? 1.0 : r.logu(0.01, 30); p.al = r.coin(0.5) ? 0.6 : r.coin(0.3) ? 0.0 : r.coin(0.2) ? r.uni(1.5, 8) : r.uni(0, 1.5); return p;
}
static std::string str(const RP& p) { return fmt("%s n=%zu R=%.17g alpha=%.17g", RN[p.k], p.n, p.R, p.al); }
static std::unique_ptr<RadialTraits> traits_of(const RP& p) { return traits_of(p.k, p.n, p.R, p.al); }
static bool model_eq(const RP& a, const RP& b) { return a.k == b.k && a.n == b.n && a.R == b.R && (a.k != 1 || a.al == b.al); }

// ---------------------------------------------------------------------- C09
static std::string mutate(Rng& r, std::string s) {
  switch (r.below(9)) {
    case 0: s += " "; break;
    case 1: s = " " + s; break;
    case 2: s += s; break;
    case 3: if (!s.empty()) s.erase(r.below(s.size()), 1); break;
    case 4: s.insert(r.below(s.size() + 1), 1, (char)r.in(33, 126)); break;
    case 5: if (!s.empty()) s[r.below(s.size())] = (char)r.in(0, 255); break;
    case 6: s.push_back('\0'); break;
    case 7: s = s.substr(0, r.below(s.size() + 1)); break;
    case 8: { s.clear(); size_t n = r.below(r.coin(0.1) ? 5000 : 12); for (size_t i = 0; i < n; ++i) s += (char)r.in(0, 255); break; }
  }
  return s;
}
static std::string upper(std::string s) { for (char& ch : s) if (ch >= 'a' && ch <= 'z') ch -= 32; return s; }
static const std::pair<const char*, RadialQuad> RNAMES[] = {{"BECKE", RadialQuad::Becke}, {"MURAKNOWLES", RadialQuad::MuraKnowles}, {"MK", RadialQuad::MuraKnowles}, {"MURRAYHANDYLAMING", RadialQuad::MurrayHandyLaming}, {"MHL", RadialQuad::MurrayHandyLaming}, {"TREUTLERAHLRICHS", RadialQuad::TreutlerAhlrichs}, {"TA", RadialQuad::TreutlerAhlrichs}};
static const std::pair<const char*, AngularQuad> ANAMES[] = {{"AHRENSBEYLKIN", AngularQuad::AhrensBeylkin}, {"AB", AngularQuad::AhrensBeylkin}, {"DELLEY", AngularQuad::Delley}, {"LEBEDEVLAIKOV", AngularQuad::LebedevLaikov}, {"LEBEDEV", AngularQuad::LebedevLaikov}, {"LL", AngularQuad::LebedevLaikov}, {"WOMERSLEY", AngularQuad::Womersley}};
static std::string printable(const std::string& s) { std::string r; for (unsigned char ch : s.substr(0, 40)) r += (ch > 32 && ch < 127) ? (char)ch : '?'; return r; }

static void bad_angular_all_routes(Ctx& c, Rng& r, int a, size_t n, bool deep) {
  std::string w = fmt("%s size %zu", AN[a], n);
  must_throw(c, "angular size (class)", w, [&] { with_angular(a, [&](auto t) { typename decltype(t)::type q(n); (void)q; }); });
  must_throw(c, "angular size (factory)", w, [&] { S2Factory::generate(AQ[a], n); });
  if (!deep) return;
  RP p = rand_rp(r, 8); auto t = traits_of(p);
  must_throw(c, "angular size (spherical factory)", w, [&] { SphericalGridFactory::generate_unpruned_grid(RQ[p.k], *t, AQ[a], n); });
  must_throw(c, "angular size (specification)", w, [&] { SphericalGridFactory::generate_grid(US(RQ[p.k], *t, AQ[a], n)); });
  std::vector<PruningRegion> one = {{0, p.n, AQ[a], n}};
  must_throw(c, "angular size (pruned)", w, [&] { SphericalGridFactory::generate_pruned_grid(RQ[p.k], *t, one); });
  if (p.n > 1) {
    size_t cut = 1 + r.below(p.n - 1); size_t good = pick_ang(r, a, 100);
    std::vector<PruningRegion> two = {{0, cut, AQ[a], good}, {cut, p.n, AQ[a], good}}; two[r.below(2)].angular_size = n;
    must_throw(c, "angular size (one pruned region)", w, [&] { SphericalGridFactory::generate_grid(PS(RQ[p.k], *t, two)); });
  }
  must_throw(c, "angular size (robust scheme)", w, [&] { SphericalGridFactory::generate_grid(create_pruned_spec(PruningScheme::Robust, US(RQ[p.k], *t, AQ[a], n))); });
  if (p.n > 2) must_throw(c, "angular size (treutler scheme)", w, [&] { SphericalGridFactory::generate_grid(create_pruned_spec(PruningScheme::Treutler, US(RQ[p.k], *t, AQ[a], n))); });
  must_throw(c, "angular size (no scheme)", w, [&] { SphericalGridFactory::generate_grid(create_pruned_spec(PruningScheme::Unpruned, US(RQ[p.k], *t, AQ[a], n))); });
}

static void c09(Ctx& c) {
  const size_t top = c.thorough ? 30000 : 7000;
  for (int a = 0; a < 4; ++a)
    for (size_t st = 0; st < top; st += 100)
      if (c.begin(fmt("%s sizes %zu..%zu", AN[a], st, st + 99))) c.guard([&] {
        Rng r = c.case_rng(); size_t bad = 0;
        size_t pickd = st + r.below(100);
        for (size_t n = st; n < st + 100; ++n) if (!supported(a, n)) { ++bad; bad_angular_all_routes(c, r, a, n, n == pickd); }
          else must_work(c, "angular size", fmt("%s size %zu", AN[a], n), [&] { auto g = S2Factory::generate(AQ[a], n); if (g->npts() != n) throw std::logic_error("wrong number of points"); });
        if (bad) c.nontriv();
      });
  // neighbours of supported sizes, extremes, sizes of the other families
  const int N1 = c.thorough ? 6000 : 2000;
  for (int i = 0; i < N1; ++i) if (c.begin(fmt("unsupported size #%d", i))) c.guard([&] {
    Rng r = c.case_rng(); int a = (int)r.below(4); size_t n;
    do switch (r.below(5)) {
      case 0: { auto& s = ang_sizes()[a]; n = s[r.below(s.size())] + r.in(-3, 3); break; }
      case 1: { auto& s = ang_sizes()[r.below(4)]; n = s[r.below(s.size())]; break; }
      case 2: n = r.next() >> r.below(64); break;
      case 3: { static const size_t x[] = {0, 1, SIZE_MAX, SIZE_MAX / 2, SIZE_MAX / 2 + 1, 1ull << 32, (1ull << 32) + 6, (1ull << 32) + 26, (1ull << 31), (1ull << 16) + 6, 5811, 5812}; n = x[r.below(sizeof x / sizeof *x)]; break; }
      default: { auto& s = ang_sizes()[a]; n = (size_t)s[r.below(s.size())] + ((size_t)1 << (8 * r.in(1, 7))); break; }
    } while (supported(a, n) || (n > (1u << 19) && n < ((size_t)1 << 37))); // sizes in between would be allocated before they are refused
    bad_angular_all_routes(c, r, a, n, true); c.nontriv(fmt("%s %zu", AN[a], n));
  });
  // names
  const int N2 = c.thorough ? 30000 : 8000;
  for (int i = 0; i < N2; ++i) if (c.begin(fmt("name #%d", i))) c.guard([&] {
    Rng r = c.case_rng(); bool rad = r.coin();
    std::string s = r.coin(0.8) ? (rad ? RNAMES[r.below(7)].first : ANAMES[r.below(7)].first) : (rad ? ANAMES[r.below(7)].first : RNAMES[r.below(7)].first);
    s = mutate(r, s); if (r.coin(0.2)) s = mutate(r, s);
    std::string u = upper(s); bool known = false;
    if (rad) { for (auto& x : RNAMES) known |= u == x.first; } else for (auto& x : ANAMES) known |= u == x.first;
    if (known) return;
    must_throw(c, rad ? "radial name" : "angular name", "'" + printable(s) + "'", [&] { if (rad) radial_from_string(s); else angular_from_string(s); });
    c.nontriv(s);
  });
  for (int k = 0; k < 14; ++k) if (c.begin(fmt("name of the other kind %d", k))) c.guard([&] {
    if (k < 7) must_throw(c, "angular name", RNAMES[k].first, [&] { angular_from_string(RNAMES[k].first); });
    else must_throw(c, "radial name", ANAMES[k - 7].first, [&] { radial_from_string(ANAMES[k - 7].first); });
    c.nontriv();
  });
  // enumerators that are none
  const int N3 = c.thorough ? 4000 : 1600;
  for (int i = 0; i < N3; ++i) if (c.begin(fmt("enumerator #%d", i))) c.guard([&] {
    Rng r = c.case_rng(); RP p = rand_rp(r, 6); size_t a = r.below(4);
    // values next to, or congruent to, the enumerator that the other arguments belong to
    auto near = [&](uint32_t good, uint32_t unit) -> uint32_t { switch (r.below(8)) {
      case 0: return (uint32_t)r.in(0, 0x500); case 1: return (uint32_t)r.next(); case 2: return 0x10u * (uint32_t)r.in(0, 0x50); case 3: return 0;
      case 4: return good + (uint32_t)r.in(-3, 3); case 5: return good + ((uint32_t)1 << r.below(32)); case 6: return good ^ ((uint32_t)r.next() << 16); default: return r.coin() ? -good : unit == 0x10 ? good << 4 : good >> 4; } };
    auto is = [](uint32_t x, uint32_t u) { return x % u == 0 && x / u >= 1 && x / u <= 4; };
    uint32_t vr, va; do vr = near((uint32_t)RQ[p.k], 0x10); while (is(vr, 0x10)); do va = near((uint32_t)AQ[a], 0x100); while (is(va, 0x100));
    auto t = traits_of(p); size_t n = pick_ang(r, (int)a, 60);
    auto rq = (RadialQuad)vr; auto aq = (AngularQuad)va; std::string w = fmt("values 0x%x, 0x%x", vr, va);
    must_throw(c, "radial enumerator (factory)", w, [&] { RadialFactory::generate(rq, *t); });
    must_throw(c, "radial enumerator (traits)", w, [&] { make_radial_traits(rq, p.n, p.R); });
    must_throw(c, "radial enumerator (spherical)", w, [&] { SphericalGridFactory::generate_unpruned_grid(rq, *t, AQ[a], n); });
    std::vector<PruningRegion> one = {{0, p.n, AQ[a], n}}, onea = {{0, p.n, aq, n}};
    must_throw(c, "radial enumerator (pruned)", w, [&] { SphericalGridFactory::generate_pruned_grid(rq, *t, one); });
    must_throw(c, "angular enumerator (factory)", w, [&] { S2Factory::generate(aq, n); });
    must_throw(c, "angular enumerator (spherical)", w, [&] { SphericalGridFactory::generate_unpruned_grid(RQ[p.k], *t, aq, n); });
    must_throw(c, "angular enumerator (pruned)", w, [&] { SphericalGridFactory::generate_pruned_grid(RQ[p.k], *t, onea); });
    must_throw(c, "angular enumerator (robust)", w, [&] { create_pruned_spec(PruningScheme::Robust, US(RQ[p.k], *t, aq, n)); });
    must_throw(c, "angular enumerator (treutler)", w, [&] { create_pruned_spec(PruningScheme::Treutler, US(RQ[p.k], *t, aq, n)); });
    c.nontriv(w);
  });
  // classes that are none of the named rules
  if (c.begin("classes without an enumerator")) c.guard([&] { using D = double; c.nontriv();
    must_throw(c, "radial class", "GaussLegendre", [&] { radial_from_type<GaussLegendre<D, D>>(); }); must_throw(c, "radial class", "GaussLobatto", [&] { radial_from_type<GaussLobatto<D, D>>(); });
    must_throw(c, "radial class", "GaussChebyshev2", [&] { radial_from_type<GaussChebyshev2<D, D>>(); }); must_throw(c, "radial class", "UniformTrapezoid", [&] { radial_from_type<UniformTrapezoid<D, D>>(); });
    must_throw(c, "radial class", "MurrayHandyLaming<3>", [&] { radial_from_type<RadialTransformQuadrature<UniformTrapezoid<D, D>, MurrayHandyLamingRadialTraits<3>>>(); });
    must_throw(c, "radial class", "Becke over Legendre", [&] { radial_from_type<RadialTransformQuadrature<GaussLegendre<D, D>, BeckeRadialTraits>>(); });
    must_throw(c, "radial class", "Treutler over Chebyshev 1", [&] { radial_from_type<RadialTransformQuadrature<GaussChebyshev1<D, D>, TreutlerAhlrichsRadialTraits>>(); });
    must_throw(c, "angular class", "Becke", [&] { angular_from_type<Becke<D, D>>(); }); must_throw(c, "angular class", "spherical", [&] { angular_from_type<SphericalQuadrature<Becke<D, D>, LebedevLaikov<D>>>(); });
  });
  // parameters of another radial rule; constructor arguments that do not exist
  const int N4 = c.thorough ? 6000 : 2000;
  for (int i = 0; i < N4; ++i) if (c.begin(fmt("foreign traits #%d", i))) c.guard([&] {
    Rng r = c.case_rng(); RP p = rand_rp(r, 10); if (r.coin(0.15)) p.n = r.below(2); int k = (p.k + 1 + (int)r.below(3)) % 4; auto t = traits_of(p);
    auto own = t->clone();
    if (r.coin(0.2)) t = std::make_unique<MurrayHandyLamingRadialTraits<3>>(p.n, p.R); // of no rule that can be named
    size_t a = r.below(4), n = pick_ang(r, (int)a, 60); std::string w = std::string(RN[k]) + " from " + str(p);
    must_throw(c, "foreign traits (factory)", w, [&] { RadialFactory::generate(RQ[k], *t); });
    must_throw(c, "foreign traits (class)", w, [&] { with_radial(k, [&](auto q) { typename decltype(q)::type x(*t); (void)x; }); });
    must_throw(c, "foreign traits (spherical)", w, [&] { SphericalGridFactory::generate_unpruned_grid(RQ[k], *t, AQ[a], n); });
    must_throw(c, "foreign traits (spec)", w, [&] { SphericalGridFactory::generate_grid(US(RQ[k], *t, AQ[a], n)); });
    std::vector<PruningRegion> one = {{0, p.n, AQ[a], n}};
    must_throw(c, "foreign traits (pruned)", w, [&] { SphericalGridFactory::generate_pruned_grid(RQ[k], *t, one); });
    must_throw(c, "foreign traits (MHL exponent)", "MHL from a cubic MHL map", [&] { MurrayHandyLamingRadialTraits<3> m(p.n, p.R); RadialFactory::generate(RadialQuad::MurrayHandyLaming, m); });
    must_work(c, "own traits", str(p), [&] { RadialFactory::generate(RQ[p.k], *own); });
    if (p.k != 1) must_throw(c, "traits arity", str(p), [&] { make_radial_traits(RQ[p.k], p.n, p.R, p.al); });
    else must_work(c, "traits arity", str(p), [&] { make_radial_traits(RQ[p.k], p.n, p.R, p.al); });
    must_throw(c, "traits arity", "no argument", [&] { make_radial_traits(RQ[p.k]); });
    must_throw(c, "traits arity", "four arguments", [&] { make_radial_traits(RQ[p.k], p.n, p.R, p.al, 1.0); });
    must_throw(c, "traits arguments", "a string", [&] { make_radial_traits(RQ[p.k], std::string("3")); });
    must_throw(c, "traits arguments", "a string scale", [&] { make_radial_traits(RQ[p.k], p.n, std::string("3")); });
    must_work(c, "traits arity", str(p), [&] { make_radial_traits(RQ[p.k], p.n, p.R); make_radial_traits(RQ[p.k], p.n); });
    // specifications without radial parameters
    PS nul(RQ[p.k], std::unique_ptr<RadialTraits>(), one); US un(RQ[p.k], *t, AQ[a], n); un.radial_traits.reset();
    must_throw(c, "no radial parameters (pruned)", "", [&] { SphericalGridFactory::generate_grid(nul); });
    must_throw(c, "no radial parameters (unpruned)", "", [&] { SphericalGridFactory::generate_grid(un); });
    for (auto s : {PruningScheme::Unpruned, PruningScheme::Robust, PruningScheme::Treutler}) must_throw(c, "no radial parameters (scheme)", "", [&] { create_pruned_spec(s, un); });
    c.nontriv(w);
  });
  // lists of pruning regions that are no partition of the radial points
  const int N5 = c.thorough ? 30000 : 8000;
  for (int i = 0; i < N5; ++i) if (c.begin(fmt("regions #%d", i))) c.guard([&] {
    Rng r = c.case_rng(); RP p = rand_rp(r, 30); if (p.n < 2) p.n = 2 + r.below(5); auto t = traits_of(p);
    size_t a = r.below(4); std::set<size_t> cuts = {0, p.n}; for (size_t m = r.below(4); m > 0; --m) cuts.insert(r.below(p.n));
    std::vector<size_t> v(cuts.begin(), cuts.end()); std::vector<PruningRegion> g;
    for (size_t j = 0; j + 1 < v.size(); ++j) g.push_back({v[j], v[j + 1], AQ[a], pick_ang(r, (int)a, 40)});
    auto show = [&] { std::string s = fmt("n=%zu:", p.n); for (auto& x : g) s += fmt(" [%zu,%zu)%x:%zu", x.idx_st, x.idx_en, (unsigned)x.angular_quad, x.angular_size); return s; };
    auto all = [&](const char* kind) {
      must_throw(c, kind, show(), [&] { SphericalGridFactory::generate_pruned_grid(RQ[p.k], *t, g); });
      must_throw(c, kind, show(), [&] { SphericalGridFactory::generate_grid(PS(RQ[p.k], *t, g)); });
      c.nontriv(std::string(kind) + show());
    };
    auto good = g;
    must_work(c, "regions", show(), [&] { auto q = SphericalGridFactory::generate_grid(PS(RQ[p.k], *t, g)); size_t n = 0; for (auto& x : g) n += (x.idx_en - x.idx_st) * x.angular_size; if (q->npts() != n) throw std::logic_error("wrong number of points"); });
    size_t j = r.below(g.size());
    switch (i % 14) {
      case 0: g.clear(); all("regions: none"); break;
      case 1: g.front().idx_st += 1 + r.below(p.n); all("regions: do not start at the first point"); break;
      case 2: g.back().idx_en += 1 + r.below(3); all("regions: beyond the last point"); break;
      case 3: g.back().idx_en = r.coin(0.5) ? g.back().idx_en - 1 : g.back().idx_st; all("regions: stop short of the last point"); break;
      case 4: if (g.size() > 1) { size_t q = 1 + r.below(g.size() - 1); if (g[q - 1].idx_en - g[q - 1].idx_st > 1) { g[q - 1].idx_en--; all("regions: gap"); } else if (g[q].idx_en - g[q].idx_st > 1) { g[q].idx_st++; all("regions: gap"); } } break;
      case 5: if (g.size() > 1) { size_t q = 1 + r.below(g.size() - 1); if (r.coin()) g[q - 1].idx_en++; else g[q].idx_st--; all("regions: overlap"); } break;
      case 6: std::swap(g[j].idx_st, g[j].idx_en); all("regions: reversed"); break;
      case 7: if (g.size() > 1) { size_t q = 1 + r.below(g.size() - 1); std::swap(g[q - 1], g[q]); all("regions: out of order"); } break;
      case 8: { auto e = g[j]; e.idx_en = e.idx_st; g.insert(g.begin() + j, e); all("regions: empty one"); break; }
      case 9: { auto e = g.back(); e.idx_st = e.idx_en; g.push_back(e); all("regions: empty last one"); break; }
      case 10: if (g.size() > 1) { size_t a2 = (a + 1 + r.below(3)) % 4; size_t q = r.below(g.size()); g[q].angular_quad = AQ[a2]; g[q].angular_size = pick_ang(r, (int)a2, 60); all("regions: mixed angular rules"); } break;
      case 11: { auto e = g[j]; g.insert(g.begin() + j, e); all("regions: duplicate"); break; }
      case 12: g.back().idx_en = r.coin() ? SIZE_MAX : (p.n + ((size_t)1 << 32)); all("regions: far beyond the last point"); break;
      case 13: if (g.size() > 1) { g.erase(g.begin() + j); all("regions: one is missing"); } else { g[0].idx_st = g[0].idx_en = 0; all("regions: all empty"); } break;
    }
  });
  // 1D rules that need two points; indices beyond the last point
  const int N6 = c.thorough ? 4000 : 1600;
  for (int i = 0; i < N6; ++i) if (c.begin(fmt("points #%d", i))) c.guard([&] {
    Rng r = c.case_rng(); double lo = r.coin(0.3) ? -1 : r.uni(-3, 3), up = r.coin(0.3) ? 1 : r.uni(-3, 3); size_t n = r.below(2);
    if (r.coin(0.3)) { lo = 0; up = 1; }
    must_throw(c, "trapezoid with fewer than two points", fmt("n=%zu", n), [&] { UniformTrapezoid<double, double> q(n, lo, up); (void)q; });
    must_throw(c, "trapezoid with fewer than two points", fmt("n=%zu", n), [&] { UniformTrapezoid<double, double> q(n, 0., 1.); (void)q; });
    must_throw(c, "lobatto with fewer than two points", fmt("n=%zu", n), [&] { GaussLobatto<double, double> q(n); (void)q; });
    must_work(c, "two points", "n=2", [&] { UniformTrapezoid<double, double> q(2, lo, up); GaussLobatto<double, double> g(2); if (q.npts() != 2 || g.npts() != 2) throw std::logic_error("wrong number of points"); });
    RP p = rand_rp(r); auto t = traits_of(p); auto g = RadialFactory::generate(RQ[p.k], *t);
    size_t beyond = r.coin() ? p.n : r.coin() ? p.n + r.below(1000) : r.coin() ? SIZE_MAX : (((size_t)1 << 32) + r.below(p.n));
    must_throw(c, "index of a point", str(p) + fmt(" i=%zu", beyond), [&] { g->points(beyond); });
    must_throw(c, "index of a weight", str(p) + fmt(" i=%zu", beyond), [&] { g->weights(beyond); });
    size_t in = r.below(p.n); const auto& cg = *g;
    must_work(c, "index", str(p), [&] { if (g->points(in) != cg.points()[in] || g->weights(in) != cg.weights()[in]) throw std::logic_error("indexed access gives another element"); });
    int a = (int)r.below(4); size_t na = pick_ang(r, a, 60); auto s = S2Factory::generate(AQ[a], na); size_t b2 = r.coin() ? na : na + r.below(5000);
    must_throw(c, "index of an angular point", fmt("%s %zu i=%zu", AN[a], na, b2), [&] { s->points(b2); }); must_throw(c, "index of an angular weight", fmt("%s %zu i=%zu", AN[a], na, b2), [&] { s->weights(b2); });
    // batches
    RP bp = rand_rp(r, 5); auto bt = traits_of(bp); std::shared_ptr<Base> q = SphericalGridFactory::generate_unpruned_grid(RQ[bp.k], *bt, AQ[0], 6 + 8 * r.below(2));
    must_throw(c, "batch size zero", str(bp), [&] { SphericalMicroBatcher<VP, VW> x(0, q); (void)x; });
    SphericalMicroBatcher<VP, VW> m(1 + r.below(12), q); const auto& cm = m; size_t nb = m.nbatches(), bi = r.coin() ? nb : r.coin() ? nb + r.below(100) : SIZE_MAX - r.below(3);
    must_throw(c, "index of a batch", fmt("%zu of %zu", bi, nb), [&] { m.at(bi); }); must_throw(c, "index of a batch (const)", fmt("%zu of %zu", bi, nb), [&] { cm.at(bi); });
    must_work(c, "index of a batch", fmt("last of %zu", nb), [&] { m.at(nb - 1); cm.at(nb - 1); });
    c.nontriv(str(p) + fmt("%zu %zu", n, beyond));
  });
}

// ---------------------------------------------------------------------- C13
// smallest supported order >= o, and its size, from the published table of sizes
static int64_t next_size(int a, int64_t o) {
  int64_t best = -1, bo = 0; for (int n : ang_sizes()[a]) { int64_t k = order_of(a, n); if (k >= o && (best < 0 || k < bo)) { best = n; bo = k; } } return best;
}
static void check_scheme(Ctx& c, PruningScheme sch, const RP& p, int a, size_t base, bool grid) {
  auto t = traits_of(p); US u(RQ[p.k], *t, AQ[a], base);
  std::string ctx = fmt("%s, %s, %s %zu", sch == PruningScheme::Robust ? "robust" : sch == PruningScheme::Treutler ? "treutler" : "unpruned", str(p).c_str(), AN[a], base);
  PS s = create_pruned_spec(sch, u);
  if (sch == PruningScheme::Robust) c.okf(s == robust_psi4_pruning_scheme(u), "scheme:routes", [&] { return ctx + ": differs from the scheme's own function"; });
  if (sch == PruningScheme::Treutler) c.okf(s == treutler_pruning_scheme(u), "scheme:routes", [&] { return ctx + ": differs from the scheme's own function"; });
  c.okf(s.radial_quad == RQ[p.k], "scheme:radial", [&] { return ctx + ": other radial rule"; });
  c.okf(s.radial_traits && s.radial_traits->compare(*t) && s.radial_traits->npts() == p.n, "scheme:traits", [&] { return ctx + ": other radial parameters"; });
  std::string sh; for (auto& g : s.pruning_regions) sh += fmt(" [%zu,%zu):%zu", g.idx_st, g.idx_en, g.angular_size);
  // tiling
  size_t at = 0; bool tile = !s.pruning_regions.empty();
  for (auto& g : s.pruning_regions) { tile = tile && g.idx_st == at && g.idx_en > g.idx_st; at = g.idx_en; }
  if (!c.okf(tile && at == p.n, "scheme:tiling", [&] { return ctx + ":" + sh; })) return;
  for (auto& g : s.pruning_regions) {
    c.okf(g.angular_quad == AQ[a], "scheme:family", [&] { return ctx + ":" + sh; });
    c.okf(supported(a, g.angular_size), "scheme:unsupported size", [&] { return ctx + ":" + sh; });
  }
  // what each radial point gets
  int64_t bo = order_of(a, base);
  size_t lo = (size_t)next_size(a, 7), med; size_t c1, c2;
  if (sch == PruningScheme::Robust) { c1 = p.n / 4 + 1; c2 = p.n / 2 + 1; med = (size_t)next_size(a, bo > 6 ? bo - 6 : bo); }
  else if (sch == PruningScheme::Treutler) { c1 = p.n / 3 + 1; c2 = p.n / 2 + 1; med = (size_t)next_size(a, 11); }
  else { c1 = c2 = 0; med = lo; }
  // for large n: where the expected or the reported regions change, and a sample
  std::vector<size_t> pts; if (p.n <= 3000) for (size_t i = 0; i < p.n; ++i) pts.push_back(i);
  else { Rng r = c.case_rng(); std::vector<size_t> b = {0, c1, c2, p.n}; for (auto& g : s.pruning_regions) { b.push_back(g.idx_st); b.push_back(g.idx_en); }
    for (size_t x : b) for (int d = -2; d <= 2; ++d) if (x + d < p.n) pts.push_back(x + d); for (int k = 0; k < 50; ++k) pts.push_back(r.below(p.n)); }
  for (size_t i : pts) {
    size_t want = i < c1 ? lo : i < c2 ? med : base, got = 0; for (auto& g : s.pruning_regions) if (i >= g.idx_st && i < g.idx_en) got = g.angular_size;
    if (!c.okf(got == want, "scheme:angular size", [&] { return ctx + fmt(": radial point %zu gets %zu angular points, expected %zu:", i, got, want) + sh; })) break;
  }
  c.stat("radial points judged", pts.size());
  // the specification the caller passed is untouched
  c.okf(u.radial_traits && u.radial_traits->compare(*t) && u.angular_size == base && u.angular_quad == AQ[a] && u.radial_quad == RQ[p.k], "scheme:argument changed", [&] { return ctx; });
  if (grid) {
    auto q = SphericalGridFactory::generate_grid(s);
    Rad R = radial(p.k, *t); std::map<size_t, Ang> as; std::vector<Region> rs; size_t i = 0;
    for (size_t e : {std::min(c1, p.n), std::min(c2, p.n), p.n}) if (e > i) { size_t n = i < c1 ? lo : i < c2 ? med : base; if (!as.count(n)) as[n] = angular(a, n); rs.push_back({i, e, &as[n]}); i = e; }
    compare_grid(c, "scheme grid", R, rs, {0, 0, 0}, q->points(), q->weights(), ctx);
  }
}
static void c13(Ctx& c) {
  static const PruningScheme S[] = {PruningScheme::Robust, PruningScheme::Treutler, PruningScheme::Unpruned};
  const size_t top = c.thorough ? 400 : 200;
  for (size_t n = 1; n <= top; ++n) for (int s = 0; s < 3; ++s) if (c.begin(fmt("scheme %d, n=%zu, all families", s, n))) c.guard([&] {
    Rng r = c.case_rng(); if (n > 2) c.nontriv();
    for (int a = 0; a < 4; ++a) { RP p = rand_rp(r); p.n = n; auto& z = ang_sizes()[a]; check_scheme(c, S[s], p, a, z[r.below(z.size())], false); if (n <= 40) check_scheme(c, S[s], p, a, pick_ang(r, a, 120), true); }
  });
  for (int a = 0; a < 4; ++a) for (size_t k = 0; k < ang_sizes()[a].size(); ++k) if (c.begin(fmt("%s size %d, all schemes", AN[a], ang_sizes()[a][k]))) c.guard([&] {
    Rng r = c.case_rng(); c.nontriv(); for (int rep = 0; rep < (c.thorough ? 12 : 3); ++rep) for (auto s : S) check_scheme(c, s, rand_rp(r, 60), a, ang_sizes()[a][k], ang_sizes()[a][k] < 1000 && rep == 0);
  });
  const int N = c.thorough ? 40000 : 6000;
  for (int i = 0; i < N; ++i) if (c.begin(fmt("scheme #%d", i))) c.guard([&] {
    Rng r = c.case_rng(); RP p = rand_rp(r, r.coin(0.1) ? 3000 : 150); int a = (int)r.below(4); size_t b = pick_ang(r, a, r.coin() ? 300 : 100000); c.nontriv(str(p) + fmt("%s %zu", AN[a], b));
    check_scheme(c, S[i % 3], p, a, b, p.n * b < 60000);
  });
  // specifications of rules larger than one would build
  for (int i = 0; i < (c.thorough ? 10000 : 3000); ++i) if (c.begin(fmt("huge specification #%d", i))) c.guard([&] {
    Rng r = c.case_rng(); RP p = rand_rp(r, 10); int a = (int)r.below(4); p.n = r.coin(0.4) ? ((size_t)1 << r.in(13, 62)) + (size_t)r.in(-3, 3) : (size_t)r.logu(3000, 4e18); size_t b = pick_ang(r, a, r.coin() ? 300 : 100000); c.nontriv(str(p) + fmt("%s %zu", AN[a], b));
    check_scheme(c, S[i % 3], p, a, b, false); c.stat("specifications of more than 3000 radial points");
  });
}

// ---------------------------------------------------------------------- C18
static std::string casing(Rng& r, std::string s) { int m = (int)r.below(3); for (char& ch : s) if (m == 0 || (m == 1 && r.coin())) if (ch >= 'A' && ch <= 'Z') ch += 32; return s; }
static void c18(Ctx& c) {
  const int NN = c.thorough ? 200 : 60;
  for (int k = 0; k < 14; ++k) for (int i = 0; i < NN; ++i) if (c.begin(fmt("name %s #%d", k < 7 ? RNAMES[k].first : ANAMES[k - 7].first, i))) c.guard([&] {
    Rng r = c.case_rng(); std::string s = casing(r, k < 7 ? RNAMES[k].first : ANAMES[k - 7].first); c.nontriv(s);
    if (k < 7) c.okf(radial_from_string(s) == RNAMES[k].second, "radial name", [&] { return "'" + s + "' names another rule"; });
    else c.okf(angular_from_string(s) == ANAMES[k - 7].second, "angular name", [&] { return "'" + s + "' names another rule"; });
  });
  for (int k = 0; k < 4; ++k) if (c.begin(fmt("class %s", RN[k]))) c.guard([&] { c.nontriv(); c.ok(with_radial(k, [&](auto t) { return radial_from_type<typename decltype(t)::type>(); }) == RQ[k], "radial class", RN[k]); });
  for (int k = 0; k < 4; ++k) if (c.begin(fmt("class %s", AN[k]))) c.guard([&] { c.nontriv(); c.ok(with_angular(k, [&](auto t) { return angular_from_type<typename decltype(t)::type>(); }) == AQ[k], "angular class", AN[k]); });
  if (c.begin("classes in other floating-point types")) c.guard([&] { c.nontriv(); using F = float; using L = long double; using D = double;
    c.ok(radial_from_type<Becke<F, F>>() == RadialQuad::Becke && radial_from_type<Becke<L, D>>() == RadialQuad::Becke && radial_from_type<Becke<D, L>>() == RadialQuad::Becke, "radial class", "Becke");
    c.ok(radial_from_type<TreutlerAhlrichs<F, F>>() == RadialQuad::TreutlerAhlrichs && radial_from_type<TreutlerAhlrichs<L, L>>() == RadialQuad::TreutlerAhlrichs && radial_from_type<TreutlerAhlrichs<D, F>>() == RadialQuad::TreutlerAhlrichs, "radial class", "TreutlerAhlrichs");
    c.ok(radial_from_type<MuraKnowles<F, F>>() == RadialQuad::MuraKnowles && radial_from_type<MuraKnowles<L, L>>() == RadialQuad::MuraKnowles && radial_from_type<MuraKnowles<F, D>>() == RadialQuad::MuraKnowles, "radial class", "MuraKnowles");
    c.ok(radial_from_type<MurrayHandyLaming<F, F>>() == RadialQuad::MurrayHandyLaming && radial_from_type<MurrayHandyLaming<L, L>>() == RadialQuad::MurrayHandyLaming && radial_from_type<MurrayHandyLaming<D, F>>() == RadialQuad::MurrayHandyLaming, "radial class", "MurrayHandyLaming");
    c.ok(angular_from_type<AhrensBeylkin<F>>() == AngularQuad::AhrensBeylkin && angular_from_type<AhrensBeylkin<L>>() == AngularQuad::AhrensBeylkin, "angular class", "AhrensBeylkin");
    c.ok(angular_from_type<Delley<F>>() == AngularQuad::Delley && angular_from_type<Delley<L>>() == AngularQuad::Delley, "angular class", "Delley");
    c.ok(angular_from_type<LebedevLaikov<F>>() == AngularQuad::LebedevLaikov && angular_from_type<LebedevLaikov<L>>() == AngularQuad::LebedevLaikov, "angular class", "LebedevLaikov");
    c.ok(angular_from_type<Womersley<F>>() == AngularQuad::Womersley && angular_from_type<Womersley<L>>() == AngularQuad::Womersley, "angular class", "Womersley");
  });
  // every angular rule
  for (int a = 0; a < 4; ++a) for (int n : ang_sizes()[a]) if (c.begin(fmt("%s %d", AN[a], n))) c.guard([&] {
    auto g = S2Factory::generate(AQ[a], n); auto d = angular(a, n); c.nontriv();
    c.okf(g->npts() == (size_t)n && close_p(d.p, g->points()) && close_w(d.w, g->weights()), "angular factory", [&] { return fmt("%s %d: factory and class differ", AN[a], n); });
  });
  const int N = c.thorough ? 20000 : 6000;
  for (int i = 0; i < N; ++i) if (c.begin(fmt("radial #%d", i))) c.guard([&] {
    Rng r = c.case_rng(); RP p = rand_rp(r, 120); p.k = i % 4; if (r.coin(0.04)) p.n = r.coin(0.08) ? (size_t)r.in(65530, 70000) : (size_t)r.in(120, 3000); auto t = traits_of(p); std::string w = str(p); c.nontriv(w);
    auto f = RadialFactory::generate(RQ[p.k], *t); Rad d = radial(p.k, *t);
    c.okf(f->npts() == p.n && close_w(f->points(), d.r) && close_w(f->weights(), d.w), "radial factory", [&] { return w + ": factory and class differ"; });
    auto m = p.k == 1 ? make_radial_traits(RQ[p.k], p.n, p.R, p.al) : make_radial_traits(RQ[p.k], p.n, p.R);
    c.okf(m->compare(*t) && t->compare(*m), "radial parameters", [&] { return w + ": runtime construction gives other parameters"; });
    auto fm = RadialFactory::generate(RQ[p.k], *m); c.okf(close_w(fm->points(), d.r) && close_w(fm->weights(), d.w), "radial factory", [&] { return w + ": grid of runtime-constructed parameters differs"; });
    auto m2 = make_radial_traits(RQ[p.k], p.n, p.R), m1 = make_radial_traits(RQ[p.k], p.n);
    c.okf(m2->compare(*traits_of(p.k, p.n, p.R)) && m1->compare(*traits_of(p.k, p.n, 1.0)), "radial defaults", [&] { return w; });
    // the class's own constructors
    with_radial(p.k, [&](auto tg) { using Q = typename decltype(tg)::type; Q q(p.n, p.R); Rad e = radial(p.k, *m2); c.okf(close_w(q.points(), e.r) && close_w(q.weights(), e.w), "radial constructor", [&] { return w + ": (n, R) differs from its parameters"; }); });
    if (p.k == 1) { TAQ q(p.n, p.R, p.al); c.okf(close_w(q.points(), d.r) && close_w(q.weights(), d.w), "radial constructor", [&] { return w + ": (n, R, alpha) differs from its parameters"; }); }
    auto x = RadialFactory::generate(radial_from_string(casing(r, RN[p.k] ? upper(RN[p.k]) : "")), *t); c.okf(close_w(x->points(), d.r) && close_w(x->weights(), d.w), "radial by name", [&] { return w; });
  });
  // parameters handed through unchanged, however large
  for (int i = 0; i < (c.thorough ? 20000 : 4000); ++i) if (c.begin(fmt("wide parameters #%d", i))) c.guard([&] {
    Rng r = c.case_rng(); int k = i % 4; size_t n = (r.next() | 1) >> r.below(64); n += !n; auto real = [&] { return (r.coin() ? 1 : -1) * (r.coin() ? r.logu(1e-300, 1e300) : r.uni(0, 9)); }; double R = real(), al = real(); std::string w = fmt("%s(%zu, %.17g, %.17g)", RN[k], n, R, al); c.nontriv(w);
    auto m1 = make_radial_traits(RQ[k], n), m2 = make_radial_traits(RQ[k], n, R), m3 = make_radial_traits(RQ[k], (int)(n & 0x7fffffff), (float)R);
    c.okf(m1->npts() == n && m2->npts() == n && m3->npts() == (n & 0x7fffffff), "wide parameters:npts", [&] { return w + ": another number of points"; });
    c.okf(m1->compare(*traits_of(k, n, 1.0)) && m2->compare(*traits_of(k, n, R)) && m3->compare(*traits_of(k, n & 0x7fffffff, (float)R)), "wide parameters", [&] { return w + ": other parameters"; });
    if (k == 1) { auto m = make_radial_traits(RQ[k], n, R, al); c.okf(m->npts() == n && m->compare(*traits_of(k, n, R, al)), "wide parameters", [&] { return w + ": other parameters"; }); }
    const size_t ln = n; const double lR = R; auto m5 = make_radial_traits(RQ[k], ln, lR); c.okf(m5->compare(*m2), "wide parameters", [&] { return w + ": const lvalue arguments"; });
  });
  // what the factories return belongs to the caller: earlier results are kept
  // alive and overwritten, later ones must not notice
  for (int i = 0; i < (c.thorough ? 6000 : 2000); ++i) if (c.begin(fmt("kept alive #%d", i))) c.guard([&] {
    Rng r = c.case_rng(); std::vector<std::shared_ptr<void>> alive; std::vector<std::pair<int, size_t>> angs; std::vector<RP> rads; std::string sig;
    for (int q = 0; q < 3; ++q) { int a = (int)r.below(4); angs.emplace_back(a, pick_ang(r, a, 300)); RP p = rand_rp(r, 12); rads.push_back(p); }
    const int steps = 6 + (int)r.below(12);
    for (int s = 0; s < steps; ++s) {
      auto [a, n] = angs[r.below(3)]; RP p = rads[r.below(3)]; auto t = traits_of(p); int op = (int)r.below(5); std::string w = fmt("step %d: %s x %s %zu", s, str(p).c_str(), AN[a], n); sig += fmt("%d%d%zu ", op, a, n);
      auto soil = [&](auto& g) { for (auto& x : g->weights()) x = -7; for (auto& x : g->points()) x = {}; if (r.coin(0.2)) { g->points().clear(); g->weights().clear(); } alive.push_back(g); };
      if (op == 0) { auto g = S2Factory::generate(AQ[a], n); auto d = angular(a, n); c.okf(close_p(d.p, g->points()) && close_w(d.w, g->weights()), "kept:angular", [&] { return w + ": differs after an earlier grid was overwritten"; }); soil(g); }
      else if (op == 1) { auto g = RadialFactory::generate(RQ[p.k], *t); Rad d = radial(p.k, *t); c.okf(close_w(g->points(), d.r) && close_w(g->weights(), d.w), "kept:radial", [&] { return w + ": differs after an earlier rule was overwritten"; }); soil(g); }
      else with_radial(p.k, [&](auto tr) { with_angular(a, [&](auto ta) {
        using R = typename decltype(tr)::type; using A = typename decltype(ta)::type; R rq(*t); A aq(n); SphericalQuadrature<R, A> d(rq, aq);
        Rad rr = radial(p.k, *t); auto aa = angular(a, n); c.okf(close_w(rq.points(), rr.r) && close_p(aa.p, aq.points()), "kept:class", [&] { return w; });
        std::vector<PruningRegion> one = {{0, p.n, AQ[a], n}};
        auto g = op == 2 ? SphericalGridFactory::generate_unpruned_grid(RQ[p.k], *t, AQ[a], n) : op == 3 ? SphericalGridFactory::generate_pruned_grid(RQ[p.k], *t, one) : SphericalGridFactory::generate_grid(US(RQ[p.k], *t, AQ[a], n));
        c.okf(same_grid(*g, d) && g->center() == P3{0, 0, 0}, "kept:spherical", [&] { return w + ": differs after an earlier grid was overwritten"; }); if (r.coin()) g->recenter({1, 2, 3}); soil(g);
        for (auto& x : rq.points()) x = 5; for (auto& x : aq.weights()) x = 5;
      }); });
      if (alive.size() > 2 && r.coin(0.3)) alive.erase(alive.begin() + r.below(alive.size()));
      c.stat("products overwritten and asked for again");
    }
    c.nontriv(sig);
  });
  const int NS = c.thorough ? 8000 : 2400;
  for (int i = 0; i < NS; ++i) if (c.begin(fmt("spherical #%d", i))) c.guard([&] {
    Rng r = c.case_rng(); RP p = rand_rp(r, 25); p.k = i % 4; int a = (i / 4) % 4; size_t n = pick_ang(r, a, 400); if (r.coin(0.03)) { p.n = (size_t)r.in(100, 700); n = pick_ang(r, a, 40); } auto t = traits_of(p); std::string w = str(p) + fmt(" x %s %zu", AN[a], n); c.nontriv(w);
    with_radial(p.k, [&](auto tr) { with_angular(a, [&](auto ta) {
      using R = typename decltype(tr)::type; using A = typename decltype(ta)::type;
      R rq(*t); A aq(n); SphericalQuadrature<R, A> d(rq, aq);
      auto f = SphericalGridFactory::generate_unpruned_grid(RQ[p.k], *t, AQ[a], n);
      c.okf(same_grid(*f, d), "spherical factory", [&] { return w + ": factory and class differ"; });
      c.okf(dynamic_cast<SphericalQuadrature<R, A>*>(f.get()) != nullptr, "spherical factory type", [&] { return w + ": the object is of another type"; });
      c.okf(f->center() == P3{0, 0, 0} && f->npts() == d.npts(), "spherical factory centre", [&] { return w; });
      auto g = SphericalGridFactory::generate_grid(US(RQ[p.k], *t, AQ[a], n)); c.okf(same_grid(*g, d), "spherical specification", [&] { return w; });
      auto h = SphericalGridFactory::generate_unpruned_grid(rq, aq); c.okf(same_grid(*h, d) && dynamic_cast<SphericalQuadrature<R, A>*>(h.get()), "spherical typed factory", [&] { return w; });
      auto k = SphericalGridFactory::generate_unpruned_grid(R(rq), A(aq)); c.okf(same_grid(*k, d), "spherical typed factory (moved)", [&] { return w; });
      c.okf(close_w(rq.points(), R(*t).points()) && close_p(aq.points(), A(n).points()), "typed factory changed its argument", [&] { return w; });
      // as one region
      std::vector<PruningRegion> one = {{0, p.n, AQ[a], n}};
      auto o = SphericalGridFactory::generate_pruned_grid(RQ[p.k], *t, one); c.okf(same_grid(*o, d), "pruned with one region", [&] { return w + ": differs from the unpruned grid"; });
      auto u = SphericalGridFactory::generate_grid(create_pruned_spec(PruningScheme::Unpruned, US(RQ[p.k], *t, AQ[a], n))); c.okf(same_grid(*u, d), "unpruned scheme", [&] { return w; });
      // two regions by every route
      if (p.n > 1) {
        size_t cut = 1 + r.below(p.n - 1), n2 = pick_ang(r, a, 400); A a2(n2);
        RadialGridPartition<A> rgp(rq, 0, aq, cut, a2); PrunedSphericalQuadrature<R, A> pd(rq, rgp);
        std::vector<PruningRegion> two = {{0, cut, AQ[a], n}, {cut, p.n, AQ[a], n2}};
        std::vector<PruningRegion> kept = two; const auto kept_idx = rgp.partition_idx();
        auto p1 = SphericalGridFactory::generate_pruned_grid(RQ[p.k], *t, two); auto p2 = SphericalGridFactory::generate_grid(PS(RQ[p.k], *t, two)); auto p3 = SphericalGridFactory::generate_pruned_grid(rq, rgp); auto p4 = SphericalGridFactory::generate_grid(PS(RQ[p.k], t->clone(), two));
        c.okf(same_grid(*p1, pd) && same_grid(*p2, pd) && same_grid(*p3, pd) && same_grid(*p4, pd), "pruned factory", [&] { return w + fmt(" cut %zu, %zu: routes differ", cut, n2); });
        c.okf(dynamic_cast<PrunedSphericalQuadrature<R, A>*>(p1.get()) && dynamic_cast<PrunedSphericalQuadrature<R, A>*>(p3.get()), "pruned factory type", [&] { return w; });
        // arguments handed over as lvalues are left alone and serve again
        c.okf(rgp.partition_idx() == kept_idx && kept_idx.size() == 3 && two == kept && close_w(rq.points(), R(*t).points()), "pruned factory changed its argument", [&] { return w + ": partition, regions or radial rule changed"; });
        if (rgp.partition_idx() == kept_idx) { const auto& crgp = rgp; const R& crq = rq; auto p5 = SphericalGridFactory::generate_pruned_grid(rq, rgp); auto p6 = SphericalGridFactory::generate_pruned_grid(crq, crgp); PrunedSphericalQuadrature<R, A> p7(rq, rgp); auto p8 = SphericalGridFactory::generate_pruned_grid(R(rq), RadialGridPartition<A>(rgp));
          c.okf(same_grid(*p5, pd) && same_grid(*p6, pd) && same_grid(p7, pd) && same_grid(*p8, pd), "pruned factory again", [&] { return w + fmt(" cut %zu, %zu: the same arguments give another grid the second time", cut, n2); }); }
        c.stat("pruned routes compared");
      }
    }); });
  });
}

// ---------------------------------------------------------------------- C19
struct SpecM { RP p; bool has; std::vector<PruningRegion> g; }; // model of a pruned specification
static bool reg_eq(const std::vector<PruningRegion>& a, const std::vector<PruningRegion>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (a[i].idx_st != b[i].idx_st || a[i].idx_en != b[i].idx_en || a[i].angular_quad != b[i].angular_quad || a[i].angular_size != b[i].angular_size) return false;
  return true;
}
static bool spec_eq(const SpecM& a, const SpecM& b) { return a.p.k == b.p.k && a.has == b.has && (!a.has || model_eq(a.p, b.p)) && reg_eq(a.g, b.g); }
static RP tweak(Rng& r, RP p) {
  switch (r.below(6)) { case 0: break; case 1: p.n += 1; break; case 2: p.R = std::nextafter(p.R, 100); break; case 3: p.al = std::nextafter(p.al, 2); break; case 4: p.k = (int)r.below(4); break; default: p.R *= 1.5; } return p;
}
template <class T> static void typed_eq(Ctx& c, const T& x, const T& y, bool want, const std::string& w) { c.okf((x == y) == want && (y == x) == want && x == x, "traits:==", [&] { return w; }); }
static void c19(Ctx& c) {
  const int N = c.thorough ? 60000 : 16000;
  for (int i = 0; i < N; ++i) if (c.begin(fmt("traits #%d", i))) c.guard([&] {
    Rng r = c.case_rng(); RP a = rand_rp(r, 60); if (i % 4 != 3) a.k = i % 4; RP b = tweak(r, a); if (r.coin(0.2)) b = tweak(r, b);
    std::string w = str(a) + " / " + str(b); auto ta = traits_of(a), tb = traits_of(b); bool want = model_eq(a, b); c.nontriv(w); c.stat(want ? "equal pairs" : "different pairs");
    c.okf(ta->compare(*tb) == want && tb->compare(*ta) == want, "traits:compare", [&] { return w + (want ? ": equal parameters compare different" : ": different parameters compare equal"); });
    c.okf(ta->compare(*ta) && ta->npts() == a.n && tb->npts() == b.n, "traits:self", [&] { return w; });
    if (a.k == b.k) switch (a.k) {
      case 0: typed_eq(c, BeckeRadialTraits(a.n, a.R), BeckeRadialTraits(b.n, b.R), want, w); break;
      case 1: typed_eq(c, TreutlerAhlrichsRadialTraits(a.n, a.R, a.al), TreutlerAhlrichsRadialTraits(b.n, b.R, b.al), want, w); break;
      case 2: typed_eq(c, MurrayHandyLamingRadialTraits<2>(a.n, a.R), MurrayHandyLamingRadialTraits<2>(b.n, b.R), want, w); c.ok(!ta->compare(MurrayHandyLamingRadialTraits<3>(a.n, a.R)), "traits:compare", w + ": equal to another exponent"); break;
      default: typed_eq(c, MuraKnowlesRadialTraits(a.n, a.R), MuraKnowlesRadialTraits(b.n, b.R), want, w);
    }
    // a clone is equal, of the same rule, and independent of the original
    Rad ra = radial(a.k, *ta); auto cl = ta->clone(); bool dist = cl.get() != ta.get();
    c.okf(dist && cl->compare(*ta) && ta->compare(*cl) && cl->npts() == a.n && typeid(*cl) == typeid(*ta), "traits:clone", [&] { return w; });
    ta.reset(); tb.reset(); auto junk = traits_of(b); auto c2 = cl->clone(); cl.reset(); auto junk2 = traits_of(b);
    c.okf(c2->npts() == a.n && c2->compare(*traits_of(a)), "traits:clone", [&] { return w + ": clone changed when the original went away"; });
    Rad rc = radial(a.k, *c2); c.okf(same_vec(ra.r, rc.r) && same_vec(ra.w, rc.w), "traits:clone grid", [&] { return w; });
    // equal parameters give the same rule, different ones of one rule do not
    if (want) { Rad rb = radial(b.k, *traits_of(b)); c.okf(same_vec(ra.r, rb.r) && same_vec(ra.w, rb.w), "traits:equal but other grid", [&] { return w; }); }
  });
  // parameters far outside what is ever generated: every bit of the number of points counts, every value of the reals
  const int W = c.thorough ? 80000 : 30000;
  for (int i = 0; i < W; ++i) if (c.begin(fmt("wide traits #%d", i))) c.guard([&] {
    Rng r = c.case_rng(); auto real = [&] { double s = r.coin() ? 1 : -1; if (r.coin(0.12)) { using L = std::numeric_limits<double>; const double e[] = {L::infinity(), L::max(), L::min(), L::denorm_min(), 1e-310, 0.0, L::epsilon()}; double v = e[r.below(7)]; return v == 0 ? 0.0 : s * v; } return r.coin(0.5) ? s * r.logu(1e-300, 1e300) : s * r.uni(0, 9); };
    size_t n = (r.next() | 1) >> r.below(64), m = n; if (n == 0) n = m = 1; double R = real(), S = R, al = real(), be = al;
    for (int k = 0; k < 3; ++k) if (r.coin(0.4)) switch (k) { case 0: m ^= (size_t)1 << r.below(64); if (m == 0) m = n; break; case 1: S = r.coin() ? std::nextafter(R, 1e308) : r.coin() ? -R : R * 2; break; default: be = r.coin() ? std::nextafter(al, -1e308) : r.coin() ? -al : al / 2; }
    int k = (int)(i % 6); bool hasal = k == 1; bool eq = n == m && R == S && (!hasal || al == be); std::string w = fmt("rule %d: (%zu, %.17g, %.17g) / (%zu, %.17g, %.17g)", k, n, R, al, m, S, be); c.nontriv(w + (eq ? "=" : "!")); c.stat(eq ? "equal pairs" : "different pairs");
    auto both = [&](auto x, auto y) { const RadialTraits &X = x, &Y = y; c.okf((x == y) == eq && (y == x) == eq && x == x, "traits:==", [&] { return w; }); c.okf(X.compare(Y) == eq && Y.compare(X) == eq && X.compare(X), "traits:compare", [&] { return w; }); auto z = X.clone(); c.okf(z->compare(X) && z->compare(Y) == eq && X.npts() == x.npts() && z->npts() == x.npts() && x.npts() == n && y.npts() == m, "traits:clone", [&] { return w; });
      auto v(x); v = y; c.okf(v == y && (v == x) == eq && v.npts() == m, "traits:assign", [&] { return w; }); };
    switch (k) { case 0: both(BeckeRadialTraits(n, R), BeckeRadialTraits(m, S)); break; case 1: both(TreutlerAhlrichsRadialTraits(n, R, al), TreutlerAhlrichsRadialTraits(m, S, be)); break; case 2: both(MurrayHandyLamingRadialTraits<2>(n, R), MurrayHandyLamingRadialTraits<2>(m, S)); break; case 3: both(MurrayHandyLamingRadialTraits<3>(n, R), MurrayHandyLamingRadialTraits<3>(m, S)); break; case 4: both(MurrayHandyLamingRadialTraits<1>(n, R), MurrayHandyLamingRadialTraits<1>(m, S)); break; default: both(MuraKnowlesRadialTraits(n, R), MuraKnowlesRadialTraits(m, S)); }
  });
  // specifications of every size, copied and outliving their source
  for (int i = 0; i < W / 2; ++i) if (c.begin(fmt("wide specification #%d", i))) c.guard([&] {
    Rng r = c.case_rng(); RP p = rand_rp(r, 60); if (r.coin()) p.n = (r.next() | 1) >> r.below(63); p.n += !p.n; auto t = traits_of(p); auto any = [&] { return r.next() >> r.below(64); }; const int a = (int)r.below(4); size_t z = any(); std::string w = str(p) + fmt(" x %s %zu", AN[a], z); c.nontriv(w);
    auto u = std::make_unique<US>(RQ[p.k], *t, AQ[a], z); const bool nul = r.coin(0.05); if (nul) u->radial_traits.reset();
    auto is = [&](const US& v) { return v.radial_quad == RQ[p.k] && v.angular_quad == AQ[a] && v.angular_size == z && !!v.radial_traits == !nul && (nul || v.radial_traits->compare(*t)); };
    US v(*u), v2(static_cast<const US&>(v)); std::vector<US> vs(2, v); vs.push_back(*u); vs.emplace_back(v2); c.okf(is(*u) && is(v) && is(v2) && is(vs[0]) && is(vs[2]) && is(vs[3]), "spec:unpruned copy", [&] { return w + ": a copy differs"; });
    if (!nul) c.okf(v.radial_traits.get() != u->radial_traits.get() && vs[1].radial_traits.get() != vs[0].radial_traits.get(), "spec:shared", [&] { return w; });
    u->angular_size ^= 5; u->radial_quad = RQ[(p.k + 1) % 4]; u->angular_quad = AQ[(a + 1) % 4]; u->radial_traits.reset(); while (vs.size() > 1) vs.pop_back(); u.reset(); c.okf(is(v) && is(v2) && is(vs[0]), "spec:unpruned copy", [&] { return w + ": editing or destroying the source shows in a copy"; });
    if (!nul) { auto s = create_pruned_spec(PruningScheme::Unpruned, v); std::vector<PruningRegion> want = {{0, p.n, AQ[a], z}}; c.okf(is(v) && s.radial_quad == RQ[p.k] && s.radial_traits && s.radial_traits->compare(*t) && reg_eq(s.pruning_regions, want), "spec:unpruned scheme", [&] { return w; }); }
    // the same for a pruned one, regions of any value
    std::vector<PruningRegion> g; for (size_t m = r.coin(0.05) ? 300 + r.below(100) : r.below(6); m > 0; --m) g.push_back({any(), any(), AQ[r.below(4)], any()});
    auto s = std::make_unique<PS>(RQ[p.k], *t, g); PS s2(*s), s3(RQ[0], *traits_of(0, 3, 1.0), std::vector<PruningRegion>(r.below(8), PruningRegion{1, 2, AQ[0], 6})), s4; s3 = *s; s4 = s2; s.reset(); c.okf(reg_eq(s2.pruning_regions, g) && reg_eq(s3.pruning_regions, g) && reg_eq(s4.pruning_regions, g) && s2 == s3 && s3 == s4 && s2.radial_traits->compare(*t) && s3.radial_quad == RQ[p.k], "spec:wide", [&] { return w + ": a copy or assigned specification differs"; });
    if (g.size()) { auto& x = s3.pruning_regions[r.below(g.size())]; switch (r.below(3)) { case 0: x.idx_st ^= (size_t)1 << r.below(64); break; case 1: x.idx_en ^= (size_t)1 << r.below(64); break; default: x.angular_size ^= (size_t)1 << r.below(64); } c.okf(!(s3 == s4) && !(s4 == s3) && s4 == s2, "spec:wide", [&] { return w + ": differing in one bit of one region but equal"; }); }
  });
  // histories of specifications
  const int H = c.thorough ? 24000 : 8000;
  for (int h = 0; h < H; ++h) if (c.begin(fmt("history #%d", h))) c.guard([&] {
    Rng r = c.case_rng(); std::vector<std::unique_ptr<PS>> pool; std::vector<SpecM> mod; std::string ops;
    auto regions = [&](size_t n, int a) { std::set<size_t> cuts = {0, n}; for (size_t m = r.below(3); m > 0; --m) cuts.insert(r.below(n)); std::vector<size_t> v(cuts.begin(), cuts.end()); std::vector<PruningRegion> g; for (size_t j = 0; j + 1 < v.size(); ++j) g.push_back({v[j], v[j + 1], AQ[a], pick_ang(r, a, 40)}); return g; };
    auto check = [&] {
      for (size_t i = 0; i < pool.size(); ++i) {
        auto& s = *pool[i]; auto& m = mod[i]; c.stat("specifications compared");
        c.okf(s.radial_quad == RQ[m.p.k] && !!s.radial_traits == m.has && (!m.has || s.radial_traits->compare(*traits_of(m.p))) && reg_eq(s.pruning_regions, m.g), "spec:state", [&] { return ops + fmt(": specification %zu is not what it should be", i); });
        for (size_t j = 0; j < pool.size(); ++j) {
          c.okf((s == *pool[j]) == spec_eq(m, mod[j]), "spec:==", [&] { return ops + fmt(": %zu and %zu (%s, %s)", i, j, str(m.p).c_str(), str(mod[j].p).c_str()); });
          if (i != j && m.has && mod[j].has) c.okf(s.radial_traits.get() != pool[j]->radial_traits.get(), "spec:shared", [&] { return ops; });
        }
      }
    };
    size_t L = 4 + r.below(22); bool alive = true;
    for (size_t o = 0; o < L && alive; ++o) {
      size_t n = pool.size(); int op = n == 0 ? 0 : (int)r.below(12); size_t i = n ? r.below(n) : 0, j = n ? r.below(n) : 0;
      if (n >= 6 && op < 3) op = 9;
      switch (op) {
        case 0: { RP p = rand_rp(r, 12); auto g = regions(p.n, (int)r.below(4)); bool nul = r.coin(0.1); if (nul) pool.push_back(std::make_unique<PS>(RQ[p.k], std::unique_ptr<RadialTraits>(), g)); else if (r.coin()) pool.push_back(std::make_unique<PS>(RQ[p.k], traits_of(p), g)); else { auto t = traits_of(p); pool.push_back(std::make_unique<PS>(RQ[p.k], *t, g)); } mod.push_back({p, !nul, g}); ops += fmt("new%d ", p.k); break; }
        case 1: pool.push_back(std::make_unique<PS>(*pool[i])); mod.push_back(SpecM(mod[i])); ops += fmt("copy%zu ", i); break;
        case 2: { RP p = rand_rp(r, 12); int a = (int)r.below(4); size_t z = pick_ang(r, a, 40); auto t = traits_of(p); US u(RQ[p.k], *t, AQ[a], z); US v(u); u.radial_traits.reset(); t.reset(); pool.push_back(std::make_unique<PS>(create_pruned_spec(PruningScheme::Unpruned, v))); mod.push_back({p, true, {{0, p.n, AQ[a], z}}}); ops += "scheme "; break; }
        case 3: *pool[i] = *pool[j]; mod[i] = SpecM(mod[j]); ops += fmt("%zu=%zu ", i, j); break;
        case 4: { auto& x = *pool[i]; *pool[i] = x; ops += fmt("self%zu ", i); break; }
        case 5: *pool[i] = PS(*pool[j]); mod[i] = SpecM(mod[j]); ops += fmt("%zu=copy%zu ", i, j); break;
        case 6: { RP p = tweak(r, mod[i].p); pool[i]->radial_quad = RQ[p.k]; pool[i]->radial_traits = traits_of(p); mod[i].p = p; mod[i].has = true; ops += fmt("retrait%zu ", i); break; }
        case 7: { if (pool[i]->pruning_regions.empty()) break; size_t q = r.below(pool[i]->pruning_regions.size()); auto f = [&](PruningRegion& g) { switch (o % 4) { case 0: g.idx_st++; break; case 1: g.idx_en += 2; break; case 2: g.angular_size += 1; break; default: g.angular_quad = g.angular_quad == AQ[0] ? AQ[1] : AQ[0]; } }; f(pool[i]->pruning_regions[q]); f(mod[i].g[q]); ops += fmt("edit%zu ", i); break; }
        case 8: { if (r.coin()) { PruningRegion g{1, 2, AQ[0], 6}; pool[i]->pruning_regions.push_back(g); mod[i].g.push_back(g); } else { pool[i]->pruning_regions.clear(); mod[i].g.clear(); } ops += fmt("list%zu ", i); break; }
        case 9: pool.erase(pool.begin() + i); mod.erase(mod.begin() + i); ops += fmt("drop%zu ", i); break;
        case 10: { PS t(std::move(*pool[i])); *pool[i] = t; ops += fmt("move%zu ", i); break; }
        default: { // generating does not change the specification
          auto g = mod[i].g; bool valid = mod[i].has && !g.empty(); size_t at = 0; for (auto& x : g) { int a = 0; while (AQ[a] != x.angular_quad) ++a; valid = valid && x.idx_st == at && x.idx_en > x.idx_st && supported(a, x.angular_size) && x.angular_quad == g[0].angular_quad; at = x.idx_en; } valid = valid && at == mod[i].p.n;
          int oc = outcome([&] { auto q = SphericalGridFactory::generate_grid(*pool[i]); auto t = traits_of(mod[i].p); auto e = SphericalGridFactory::generate_pruned_grid(RQ[mod[i].p.k], *t, mod[i].g); c.okf(same_grid(*q, *e), "spec:grid", [&] { return ops; }); });
          c.okf((oc == 0) == valid, "spec:generate", [&] { return ops + fmt(": %s", oc ? "fails" : "is accepted"); }); ops += fmt("gen%zu ", i); break; }
      }
      check();
    }
    c.nontriv(ops);
  });
  // region equality, field by field
  const int Q = c.thorough ? 8000 : 2400;
  for (int i = 0; i < Q; ++i) if (c.begin(fmt("region #%d", i))) c.guard([&] {
    Rng r = c.case_rng(); PruningRegion a{r.below(50), r.below(50), AQ[r.below(4)], r.below(500)}, b = a; bool eq = true; if (r.coin(0.1)) a.idx_en = b.idx_en = r.next();
    for (int k = 0; k < 4; ++k) if (r.coin(0.3)) { eq = false; switch (k) { case 0: b.idx_st ^= (size_t)1 << r.below(64); break; case 1: b.idx_en ^= (size_t)1 << r.below(64); break; case 2: b.angular_quad = AQ[((std::find(AQ, AQ + 4, a.angular_quad) - AQ) + 1 + r.below(3)) % 4]; break; default: b.angular_size ^= (size_t)1 << r.below(64); } }
    c.okf((a == b) == eq && (b == a) == eq && a == a, "region:==", [&] { return fmt("[%zu,%zu) %zu / [%zu,%zu) %zu", a.idx_st, a.idx_en, a.angular_size, b.idx_st, b.idx_en, b.angular_size); }); c.nontriv(fmt("%zu %zu %zu %zu", a.idx_st, b.idx_st, a.idx_en, b.idx_en) + (eq ? "=" : "!"));
  });
}

int main(int argc, char** argv) {
  Ctx c; c.init(argc, argv);
  if (c.prop == "C09") c09(c); else if (c.prop == "C13") c13(c); else if (c.prop == "C18") c18(c); else if (c.prop == "C19") c19(c); else return 71;
  return c.finish();
}
