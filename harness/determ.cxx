// C22 the same request always gives the same grid: again, after other
// requests, over poisoned heap and stack (judged here), and in other processes
// and builds (the digests printed here are compared by bin/check).
#ifdef HEADER_ONLY
#include <integratorxx/generators/impl/impl.hpp>
#endif
#include "tasks.hpp"
#include <atomic>
#include <fenv.h>
using namespace tk;
// A hostile clock: with FAST_CLOCK set, hours pass between any two readings
#include <time.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>
static bool fast_clock = false; static std::atomic<long> clock_reads{0};
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept { int rc = (int)syscall(SYS_clock_gettime, id, ts); long k = ++clock_reads; if (fast_clock) ts->tv_sec += 5000 * k; return rc; }
extern "C" time_t time(time_t* t) noexcept { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); if (t) *t = s.tv_sec; return s.tv_sec; }
extern "C" clock_t clock() noexcept { struct timespec s; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &s); return (clock_t)(s.tv_sec * CLOCKS_PER_SEC + s.tv_nsec / 1000); }
static void __attribute__((noinline)) soil_stack(int b) { volatile char z[60000]; for (size_t i = 0; i < sizeof z; ++i) z[i] = (char)b; }
int main(int argc, char** argv) {
  Ctx c; c.init(argc, argv); if (c.prop != "C22") return 71;
  fast_clock = getenv("FAST_CLOCK") != nullptr;
  static const int FILL[] = {0x00, 0xff, 0xa5, 0x7f, 0x3f, 0xc0, 0x01};
  // the digests come first, so that they are made in each process with the
  // history its own sequence of requests gives; odd jobs go backwards
  const bool back = getenv("BACKWARDS") != nullptr;
  const int M = (c.thorough ? 20000 : 3300); std::vector<std::pair<std::string, std::string>> lines;
  for (int q = 0; q < M; ++q) { int i = back ? M - 1 - q : q; if (c.begin(fmt("digest #%d", i))) c.guard([&] {
    Rng r = c.case_rng(); const int kind = i % NKIND; const uint64_t seed = r.next();
    if (back) { vm::poison = FILL[i % 7]; soil_stack(FILL[(i + 3) % 7]); }
    uint64_t of = 0; tk::batched = &of; Out e = tk::run(kind, seed, true); tk::batched = nullptr; Out o = (kind == 17 || kind == 18) ? tk::run(kind, seed, false) : e; vm::poison = -1;
    // projections with index-dependent coefficients, of values compressed so
    // that relative errors of small ones count too
    double P[4] = {0, 0, 0, 0}, S = 0; bool fin = true; for (size_t x = 0; x < o.size(); ++x) { double f = std::asinh(o[x] * 1e4); fin = fin && std::isfinite(o[x]); if (!std::isfinite(f)) f = std::isnan(f) ? 12345 : f > 0 ? 999 : -999; S += std::fabs(f); uint64_t h = (x + 1) * 0x9E3779B97F4A7C15ull; for (double& p : P) { h ^= h >> 31; h *= 0xBF58476D1CE4E5B9ull; p += f * (double(h >> 11) * 0x1p-52 - 1); } }
    c.okf(fin, "finite", [&] { return fmt("%s seed %llu", kind_name(kind), (unsigned long long)seed); });
    fprintf(c.fo, "{\"t\":\"dig\",\"case\":\"%s %s\",\"n\":%zu,\"h\":\"%llx\",\"b\":\"%llx\",\"p\":[%.17g,%.17g,%.17g,%.17g],\"s\":%.6g}\n", kind_name(kind), c.cur.c_str(), o.size(), (unsigned long long)digest(e), (unsigned long long)of, P[0], P[1], P[2], P[3], S); fflush(c.fo);
    c.stat("values digested", o.size()); if (o.size() > 8) c.nontriv(fmt("%s %llx", c.cur.c_str(), (unsigned long long)digest(e)));
  }); }
  if (!getenv("DIGESTS_ONLY")) {
    const int N = c.thorough ? 200000 : 24000;
    for (int i = 0; i < N; ++i) if (c.begin(fmt("history #%d", i))) c.guard([&] {
      Rng r = c.case_rng(); std::vector<std::tuple<int, uint64_t, uint64_t>> past; std::vector<std::shared_ptr<void>> kept; if (r.coin(0.7)) tk::keep = &kept; struct Off { ~Off() { tk::keep = nullptr; } } off_; const int len = 3 + (int)r.below(8);
      for (int s = 0; s < len; ++s) {
        int kind = (int)r.below(NKIND); if (s == 0) kind = i % NKIND; uint64_t seed = r.next(); int who = -1;
        if (s && r.coin(0.3)) { auto& q = past[r.below(past.size())]; kind = std::get<0>(q); seed = std::get<1>(q) ^ (1 + r.below(7)); } // a sibling of an earlier request
        if (s && r.coin(0.55)) { who = (int)r.below(past.size()); kind = std::get<0>(past[who]); seed = std::get<1>(past[who]); }
        const int f = r.coin(0.2) ? -1 : FILL[r.below(7)]; vm::poison = f; if (f >= 0) soil_stack(FILL[r.below(7)]);
        uint64_t d = digest(tk::run(kind, seed, true)); vm::poison = -1; c.stat("requests made");
        if (who >= 0) { c.stat("requests repeated"); c.okf(d == std::get<2>(past[who]), std::string("repeat:") + kind_name(kind), [&] { return fmt("%s seed %llu: repeated as request %d after %d others (memory filled with %#x): other bits than the first time", kind_name(kind), (unsigned long long)seed, s, s - 1 - who, f); }); }
        else past.emplace_back(kind, seed, d);
      }
      c.nontriv();
    });
  }
  c.stat("clock readings intercepted", clock_reads.load());
  return c.finish();
}
