// C20 a broad walk over the library for the memory and undefined-behaviour
// monitors (sanitizers, debug containers, valgrind); judges by itself only
// that a request which is made again and again does not keep growing the heap.
#include "tasks.hpp"
#include <thread>
using namespace tk;
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define ASAN_ON
#endif
#endif
#if defined(__SANITIZE_ADDRESS__) || defined(ASAN_ON)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static long long held() { return (long long)__sanitizer_get_current_allocated_bytes(); }
#else
static long long held() { return vm::live_bytes; }
#endif
// life cycles that the request library does not have: destroyed originals,
// empty and one-element extremes, iterators at and around their ends
static Out odd(int kind, uint64_t seed) {
  Rng r(seed); Out o; const int k = (int)r.below(4), a = 3 - k; size_t n = 1 + r.below(r.coin(0.4) ? 2 : 12), z = pick_ang(r, a, 60), z2 = pick_ang(r, a, 60), cut = n > 1 ? 1 + r.below(n - 1) : 0; P3 cen = rand_center(r);
  auto t = traits_of(k, n, r.logu(0.2, 5));
  with_pair(k, [&](auto tr, auto ta) {
    using RT = typename decltype(tr)::type; using AT = typename decltype(ta)::type; using SQ = SphericalQuadrature<RT, AT>; using PQ = PrunedSphericalQuadrature<RT, AT>; using Part = RadialGridPartition<AT>;
    switch (kind) {
      case 0: { // everything it was made from is gone
        std::unique_ptr<PQ> q; { auto rq = std::make_unique<RT>(*t); auto aq = std::make_unique<AT>(z); auto aq2 = std::make_unique<AT>(z2); auto p = std::make_unique<Part>(); p->add_quad(*rq, 0, *aq); if (cut) p->add_quad(*rq, cut, *aq2); p->finalize(*rq); t.reset(); aq.reset(); aq2.reset(); auto p2 = std::make_unique<Part>(*p); p.reset(); q = std::make_unique<PQ>(*rq, *p2, cen); }
        dump_q(o, *q); std::shared_ptr<Base> c = q->clone(); q.reset(); auto d = c->clone(); c.reset(); d->recenter({1, 2, 3}); dump_q(o, *d); break; }
      case 1: { // batches whose quadrature, original or clone is gone, and views of every kind
        auto b = std::make_unique<Batcher>(1 + r.below(6), std::shared_ptr<Base>(std::make_shared<SQ>(RT(*t), AT(z), cen))); auto c = std::make_unique<Batcher>(b->clone()); b.reset(); c->recenter({0, 0, 1}); dump_batches(o, *c, true); auto d = std::make_unique<Batcher>(std::move(*c)); c.reset();
        auto it = d->begin(); auto e = d->end(); size_t nb = d->nbatches(); { auto x = it + nb; o.push_back(x == e); o.push_back(x != it); auto y = it++; o.push_back(y != it); it = y; } for (size_t i = 0; i < nb; ++i) { auto j = it + i; auto v = *j; o.push_back((double)std::get<2>(v).size()); auto v2 = d->at(i); dump(o, VP(std::get<2>(v2))); }
        const Batcher& cd = *d; for (auto ci = cd.cbegin(); ci != cd.cend(); ++ci) { auto v = *ci; dump(o, VW(std::get<3>(v))); } rejected(o, [&] { (void)d->at(nb); }); rejected(o, [&] { (void)cd.at(size_t(-1)); }); break; }
      case 2: { // lvalue, rvalue and shared quadratures, limits from 1 to beyond all
        SQ q(RT(*t), AT(z), cen); for (size_t bs : {size_t(1), size_t(2), q.npts() - 1, q.npts(), q.npts() + 1, size_t(1) << 40}) if (bs) { auto b = make_batcher(bs, q); dump_batches(o, b, true); } { auto b = make_batcher(3, SQ(q)); dump_batches(o, b, true); } dump_q(o, q); rejected(o, [&] { auto b = make_batcher(0, q); }); break; }
      case 3: { // partitions: self-consistent after copy, move and assignment, originals gone
        RT rq(*t); auto p = std::make_unique<Part>(); p->add_quad(rq, 0, AT(z)); if (cut) p->add_quad(rq, cut, AT(z2)); p->finalize(rq); Part c(*p); Part d; d = *p; p.reset(); dump_part(o, c); dump_part(o, d); Part& self = d; d = self; dump_part(o, d); Part e(std::move(c)); for (auto x = e.begin(); x != e.end(); ++x) { auto v = *x; dump(o, v.first.first); dump_q(o, v.second); } break; }
      case 4: { // specifications: sources gone, self-assignment, missing parameters
        auto s = std::make_unique<PS>(RQ[k], *t, std::vector<PruningRegion>{{0, n, AQ[a], z}}); t.reset(); PS c(*s), d(*s); s.reset(); PS& self = c; c = self; d = c; dump_spec(o, d); dump_q(o, *SphericalGridFactory::generate_grid(d)); d.radial_traits.reset(); c = d; PS e(c); o.push_back(c == d); o.push_back(e == PS(d)); rejected(o, [&] { SphericalGridFactory::generate_grid(c); }); break; }
      case 5: { // through their base classes
        std::unique_ptr<RadialTraits> c = t->clone(); t.reset(); { auto g = RadialFactory::generate(RQ[k], *c); auto h = S2Factory::generate(AQ[a], z); dump_q(o, *g); dump_q(o, *h); std::shared_ptr<Base> b = SphericalGridFactory::generate_unpruned_grid(RQ[k], *c, AQ[a], z); std::shared_ptr<Base> b2 = b->clone(); b.reset(); b2->recenter(cen); dump_q(o, *b2); } break; }
      case 6: { // the smallest of everything
        for (int q = 0; q < 7; ++q) for (size_t m = 0; m < 4; ++m) prim_of(q, m, r, [&](const auto& u) { auto v = u; dump_q(o, v); auto w = std::move(v); dump_q(o, w); });
        RT one(*traits_of(k, 1, 1.0)); dump_q(o, one); AT small(ang_sizes()[a][0]); SQ q(one, small); dump_q(o, q); Part p(one, 0, small); p.finalize(one); PQ pq(one, p); dump_q(o, pq); auto b = make_batcher(1, pq); dump_batches(o, b, true); break; }
      default: { // each scheme at every small size
        for (size_t m = 1; m < 9; ++m) for (auto sc : {PruningScheme::Unpruned, PruningScheme::Robust, PruningScheme::Treutler}) { auto tm = traits_of(k, m, 1.5); auto s = create_pruned_spec(sc, US(RQ[k], *tm, AQ[a], z)); tm.reset(); dump_spec(o, s); dump_q(o, *SphericalGridFactory::generate_grid(s)); } }
    }
  });
  return o;
}
constexpr int NODD = 8;
int main(int argc, char** argv) {
  Ctx c; c.init(argc, argv); if (c.prop != "C20") return 71;
  const char* v = getenv("SCALE"); const double scale = v ? atof(v) : 1;
  const int N = (int)((c.thorough ? 60000 : 9000) * scale);
  for (int i = 0; i < N; ++i) if (c.begin(fmt("request #%d", i))) c.guard([&] {
    Rng r = c.case_rng(); const int kind = i % (NKIND + NODD); const uint64_t seed = r.next(); std::string w = fmt("%s seed %llu", kind < NKIND ? kind_name(kind) : fmt("life cycle %d", kind - NKIND).c_str(), (unsigned long long)seed);
    auto once = [&] { Out o = kind < NKIND ? tk::run(kind, seed, true, r.s % 5 == 0 ? 3 : 1) : odd(kind - NKIND, seed); c.stat("values obtained", (long long)o.size()); return digest(o); };
    r.s = seed; uint64_t d0 = once(); long long h0 = held(); r.s = seed; uint64_t d1 = once(); long long h1 = held(); long long h2 = h1;
    if (h1 > h0) { r.s = seed; once(); h2 = held(); }
    c.okf(!(h1 > h0 && h2 > h1), fmt("leak:%s", kind < NKIND ? kind_name(kind) : "life cycle"), [&] { return w + fmt(": %lld bytes more are held after each time it is made", h2 - h1); });
    c.okf(d0 == d1, "repeat", [&] { return w; }); c.stat(kind < NKIND ? std::string("requests: ") + kind_name(kind) : "requests: life cycles"); c.nontriv(w);
  });
  if (!v) for (int a = 0; a < 4; ++a) for (int z : ang_sizes()[a]) if (c.begin(fmt("table %s %d", AN[a], z))) c.guard([&] { auto g = S2Factory::generate(AQ[a], z); Out o; dump_q(o, *g); with_angular(a, [&](auto t) { typename decltype(t)::type q(z); dump_q(o, q); }); c.stat("values obtained", (long long)o.size()); c.nontriv(); });
  return c.finish();
}
