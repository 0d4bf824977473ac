// C21 many threads. Every case runs in two fresh processes: one makes the
// requests one after the other, the other makes them from many threads at once
// as the first thing it ever does with the library (plus, in half the cases,
// readers of shared objects no thread modifies). Monitors: the race detector
// (in the TSan builds), and equality, bit for bit, of every request's outcome.
#include "tasks.hpp"
#include <sched.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <thread>
using namespace tk;
static thread_local uint64_t tl_rng = 0; // 0: no injected delays in this thread
static thread_local unsigned tl_me = 0;
static std::atomic<uint64_t> ticket{0};
static void jitter() {
  if (!tl_rng) return;
  tl_rng = tl_rng * 6364136223846793005ull + 1442695040888963407ull; unsigned x = tl_rng >> 40;
  if (x % 61 == 0) sched_yield(); else if (x % 997 == 0) { timespec t{0, 1000 * (1 + x % 40)}; nanosleep(&t, nullptr); } else if (x % 17 == 0) for (volatile unsigned i = 0; i < x % 300; ++i) {}
}
struct Shared { // read by many, modified by none
  int k; size_t n, z, z2, cut; double R; std::unique_ptr<RadialTraits> t; std::unique_ptr<US> us; std::unique_ptr<PS> ps; std::shared_ptr<Base> grid; std::unique_ptr<Batcher> bat; std::unique_ptr<TAQ> rq; std::unique_ptr<ABQ> aq, aq2; std::unique_ptr<RadialGridPartition<ABQ>> part; std::unique_ptr<PrunedSphericalQuadrature<TAQ, ABQ>> pq; std::unique_ptr<UTR> ut;
  explicit Shared(uint64_t seed) {
    Rng r(seed); k = 1; n = 2 + r.below(12); z = pick_ang(r, 2, 80); z2 = pick_ang(r, 2, 80); cut = 1 + r.below(n - 1); R = r.logu(0.3, 3); t = traits_of(k, n, R);
    us = std::make_unique<US>(RQ[k], *t, AQ[2], z); ps = std::make_unique<PS>(RQ[k], *t, std::vector<PruningRegion>{{0, cut, AQ[2], z}, {cut, n, AQ[2], z2}});
    rq = std::make_unique<TAQ>(*t); aq = std::make_unique<ABQ>(z); aq2 = std::make_unique<ABQ>(z2); part = std::make_unique<RadialGridPartition<ABQ>>(); part->add_quad(*rq, 0, *aq); part->add_quad(*rq, cut, *aq2); part->finalize(*rq);
    pq = std::make_unique<PrunedSphericalQuadrature<TAQ, ABQ>>(*rq, *part, P3{1, 2, 3}); grid = SphericalGridFactory::generate_grid(*ps); bat = std::make_unique<Batcher>(1 + r.below(9), SphericalGridFactory::generate_grid(*ps)); ut = std::make_unique<UTR>(5, 0., 1.);
  }
};
// every const accessor, in an order of the caller's own
template <class Q> static void access(Out& o, const Q& q, Rng& r) {
  o.resize(8); for (int s = 0; s < 6; ++s) { int k = (int)r.below(6); const size_t n = q.points().size(); switch (k) { case 0: o[0] = (double)q.npts(); break; case 1: o[1] = (double)q.points().size(); break; case 2: o[2] = (double)q.weights().size(); break; case 3: o[3] = q.weights().back(); break; case 4: { Out v; dump(v, q.points().at(n / 2)); o[4] = v.back(); break; } default: o[5] = q.weights().at(n / 3); } }
  if (r.coin()) { o[0] = (double)q.npts(); o[3] = q.weights().back(); }
  o.assign(1, (double)q.npts()); dump(o, q.weights());
}
constexpr int NSH = 16;
static Out read_shared(const Shared& s, int kind, uint64_t seed) {
  Rng r(seed); Out o;
  switch (kind) {
    case 0: dump_q(o, *s.grid); dump(o, s.grid->center()); break;
    case 1: { auto g = s.grid->clone(); g->recenter(rand_center(r)); dump_q(o, *g); break; }
    case 2: { auto g = SphericalGridFactory::generate_grid(*s.ps); dump_q(o, *g); auto u = SphericalGridFactory::generate_grid(*s.us); dump_q(o, *u); break; }
    case 3: { PS c(*s.ps); o.push_back(c == *s.ps); dump_spec(o, c); c.pruning_regions.pop_back(); o.push_back(c == *s.ps); break; }
    case 4: { auto c = s.t->clone(); o.push_back(c->compare(*s.t)); o.push_back(s.t->compare(*c)); dump_traits(o, s.k, *s.t); dump(o, s.t->npts()); break; }
    case 5: { const Batcher& b = *s.bat; dump(o, b.nbatches()); dump_q(o, b); for (auto it = b.cbegin(); it != b.cend(); ++it) { auto [lo, up, p, w] = *it; dump(o, lo); dump(o, up); dump(o, VP(p)); dump(o, VW(w)); } break; }
    case 6: { auto c = s.bat->clone(); c.recenter(rand_center(r)); dump_batches(o, c, true); break; }
    case 7: { auto b = make_batcher(1 + r.below(9), *s.pq); dump_batches(o, b, true); break; }
    case 8: dump_part(o, *s.part); { RadialGridPartition<ABQ> p(*s.part); dump_part(o, p); } break;
    case 9: { TAQ q(*s.rq); ABQ a(*s.aq); dump_q(o, q); dump_q(o, a); SubQuadrature<ABQ> sub(std::make_pair(size_t(1), a.npts()), *s.aq); dump_q(o, sub); break; }
    case 10: { PrunedSphericalQuadrature<TAQ, ABQ> g(*s.rq, *s.part, P3{0, 1, 0}); dump_q(o, g); SphericalQuadrature<TAQ, ABQ> q(*s.rq, *s.aq); dump_q(o, q); break; }
    case 11: { auto p = create_pruned_spec(PruningScheme::Robust, *s.us); dump_spec(o, p); auto q = create_pruned_spec(PruningScheme::Treutler, *s.us); dump_spec(o, q); break; }
    case 12: { std::shared_ptr<Base> h = s.grid; auto g = h->clone(); h.reset(); dump_q(o, *g); auto rg = RadialFactory::generate(RQ[s.k], *s.t); dump_q(o, *rg); break; }
    case 14: access(o, *s.grid, r); dump(o, s.grid->center()); break;
    case 15: { const Base& b = s.bat->quadrature(); if (r.coin()) { access(o, b, r); access(o, *s.pq, r); } else { access(o, *s.pq, r); access(o, *s.bat, r); } access(o, *s.rq, r); access(o, *s.aq, r); dump(o, s.pq->center()); dump(o, s.bat->max_batch_size()); dump(o, b.npts()); break; }
    default: { auto v = static_cast<const Batcher&>(*s.bat).at(r.below(s.bat->nbatches())); dump(o, VP(std::get<2>(v))); dump(o, VW(std::get<3>(v))); dump_q(o, *s.ut); UTR u(*s.ut); dump_q(o, u); }
  }
  return o;
}
struct Job { int kind; uint64_t seed; };
static uint64_t do_job(const Job& j, const Shared* s) { try { return digest(j.kind < NKIND ? tk::run(j.kind, j.seed) : read_shared(*s, j.kind - NKIND, j.seed)); } catch (const std::exception& e) { return hash_str(e.what()) | 1; } }
static Job* JOBS; static uint64_t *RES; static uint32_t *LOG; constexpr size_t MAXJ = 4096;
// runs f in a forked process; the monitors' exit status travels up unchanged
template <class F> static bool in_child(F&& f) {
  fflush(nullptr); pid_t p = fork();
  if (p < 0) { perror("fork"); _exit(70); }
  if (p == 0) { f(); _exit(0); }
  int st = 0; while (waitpid(p, &st, 0) < 0) {}
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return true;
  if (WIFEXITED(st)) _exit(WEXITSTATUS(st));
  signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); _exit(70);
}
int main(int argc, char** argv) {
  Ctx c; c.init(argc, argv); if (c.prop != "C21") return 71;
  auto shm = [](size_t n) { void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) _exit(70); return p; };
  JOBS = new Job[MAXJ]; RES = (uint64_t*)shm(2 * MAXJ * 8); LOG = (uint32_t*)shm(2 * MAXJ * 4 + 64);
#ifdef __SANITIZE_THREAD__
  const bool tsan = true;
#elif defined(__has_feature)
#if __has_feature(thread_sanitizer)
  const bool tsan = true;
#else
  const bool tsan = false;
#endif
#else
  const bool tsan = false;
#endif
  const int N = (c.thorough ? 12 : 1) * (tsan ? 640 : 2400);
  for (int i = 0; i < N; ++i) if (c.begin(fmt("crowd #%d", i))) {
    Rng r = c.case_rng(); const unsigned T = 2 + (unsigned)r.below(c.thorough ? 15 : 9), per = 2 + (unsigned)r.below(10), nj = T * per; const int mode = i % 4;
    // 0: everyone makes the same request at once; 1: few kinds; 2: all kinds; 3: shared objects too
    const int k0 = (i / 4) % NKIND; const uint64_t s0 = r.next();
    for (unsigned j = 0; j < nj; ++j) {
      Job& q = JOBS[j]; q.seed = r.next();
      if (mode == 0) q = {k0, r.coin(0.5) ? s0 : r.coin() ? s0 ^ (1 + r.below(7)) : q.seed}; else if (mode == 1) { q.kind = (k0 + (int)r.below(2)) % NKIND; if (r.coin(0.3)) q.seed = s0 ^ r.below(8); } else if (mode == 2) q.kind = (int)r.below(NKIND);
      else { q.kind = r.coin(0.75) ? NKIND + (int)r.below(NSH) : (int)r.below(NKIND); }
    }
    const uint64_t shared_seed = r.next(); const bool delays = r.coin(0.6);
    in_child([&] { std::unique_ptr<Shared> s; if (mode == 3) s = std::make_unique<Shared>(shared_seed); for (unsigned j = 0; j < nj; ++j) RES[j] = do_job(JOBS[j], s.get()); });
    in_child([&] {
      std::unique_ptr<Shared> s; if (mode == 3) s = std::make_unique<Shared>(shared_seed);
      if (delays) vm::on_new = jitter;
      std::atomic<unsigned> ready{0}; std::vector<std::thread> th;
      for (unsigned t = 0; t < T; ++t) th.emplace_back([&, t] {
        if (delays) tl_rng = (shared_seed ^ (t * 0x9E3779B97F4A7C15ull)) | 1; tl_me = t;
        ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < T) sched_yield();
        for (unsigned j = 0; j < per; ++j) {
          // relaxed tickets: they order nothing, so they hide no race
          LOG[ticket.fetch_add(1, std::memory_order_relaxed)] = t * 2; RES[MAXJ + t * per + j] = do_job(JOBS[t * per + j], s.get()); LOG[ticket.fetch_add(1, std::memory_order_relaxed)] = t * 2 + 1;
        }
      });
      for (auto& t : th) t.join();
      vm::on_new = nullptr;
    });
    // what the log says about the overlap
    uint64_t h = 0; unsigned open = 0, most = 0; size_t over = 0; for (unsigned e = 0; e < 2 * nj; ++e) { h = (h ^ LOG[e]) * 1099511628211ull; if (LOG[e] % 2 == 0) { if (open) ++over; ++open; most = std::max(most, open); } else --open; }
    c.stat("requests made concurrently", nj); c.stat("requests begun while another was running", (long long)over); c.stat("threads", T); c.peak("requests running at once", most);
    if (over) c.nontriv(fmt("%s: %u threads, mode %d, order %llx", c.cur.c_str(), T, mode, (unsigned long long)h));
    for (unsigned j = 0; j < nj; ++j) { const Job& q = JOBS[j]; c.okf(RES[j] == RES[MAXJ + j], std::string("outcome:") + (q.kind < NKIND ? kind_name(q.kind) : fmt("shared-%d", q.kind - NKIND).c_str()), [&] { return fmt("%s seed %llu made by thread %u of %u (mode %d): outcome differs from the same request made alone", q.kind < NKIND ? kind_name(q.kind) : "shared object", (unsigned long long)q.seed, j / per, T, mode); }); }
  }
  return c.finish();
}
