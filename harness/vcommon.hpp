// Shared runtime of the monitors: case bookkeeping, violation log, allocation
// monitor. Every harness is a single translation unit that includes this once.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <limits>
#include <malloc.h>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <random>
#include <set>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <unistd.h>
#include <unordered_set>
#include <utility>
#include <vector>

// ---------------------------------------------------------------- allocation
// Every operator new of the process is observed: live bytes and blocks (leaks,
// unbounded growth), number of calls (logical steps, for bounded progress),
// and, when armed, the k-th one fails.
namespace vm {
inline std::atomic<long long> live_bytes{0}, live_blocks{0}, news{0};
inline std::atomic<long long> byte_budget{0}, news_budget{0};
inline std::atomic<long long> fail_at{-1}; // -1: disarmed
inline std::atomic<long long> failed{0};
inline std::atomic<void (*)()> on_new{nullptr}; // injected delay
inline std::atomic<int> poison{-1};             // fill byte for fresh and released memory
inline int prog_fd = -1;
inline void die(int code, const char* what) {
  if (prog_fd >= 0) { if (pwrite(prog_fd, what, strlen(what), 2048) < 0) {} }
  _exit(code);
}
inline void* take(std::size_t n, std::size_t align = 0) {
  if (fail_at.load(std::memory_order_relaxed) >= 0) {
    if (fail_at.fetch_sub(1, std::memory_order_relaxed) == 0) {
      failed.fetch_add(1, std::memory_order_relaxed);
      throw std::bad_alloc();
    }
  }
  auto c = news.fetch_add(1, std::memory_order_relaxed) + 1;
  auto nb = news_budget.load(std::memory_order_relaxed);
  if (nb && c > nb) die(78, "allocation-step budget exceeded (no progress)");
  auto bb = byte_budget.load(std::memory_order_relaxed);
  if (n > (std::size_t(1) << 40)) throw std::bad_alloc();
  if (bb && live_bytes.load(std::memory_order_relaxed) + (long long)n > bb) die(77, "live-memory budget exceeded (unbounded growth)");
  void* p = nullptr; if (align > alignof(std::max_align_t)) { if (posix_memalign(&p, align, n ? n : 1)) p = nullptr; } else p = std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  live_bytes.fetch_add((long long)malloc_usable_size(p), std::memory_order_relaxed);
  live_blocks.fetch_add(1, std::memory_order_relaxed);
  if (int b = poison.load(std::memory_order_relaxed); b >= 0) std::memset(p, b, malloc_usable_size(p));
  if (auto f = on_new.load(std::memory_order_relaxed)) f();
  return p;
}
inline void give(void* p) {
  if (!p) return;
  live_bytes.fetch_sub((long long)malloc_usable_size(p), std::memory_order_relaxed);
  live_blocks.fetch_sub(1, std::memory_order_relaxed);
  if (int b = poison.load(std::memory_order_relaxed); b >= 0) std::memset(p, b, malloc_usable_size(p));
  std::free(p);
}
} // namespace vm
#ifndef VM_NO_NEW_HOOK
void* operator new(std::size_t n) { return vm::take(n); }
void* operator new[](std::size_t n) { return vm::take(n); }
void operator delete(void* p) noexcept { vm::give(p); }
void operator delete[](void* p) noexcept { vm::give(p); }
void operator delete(void* p, std::size_t) noexcept { vm::give(p); }
void operator delete[](void* p, std::size_t) noexcept { vm::give(p); }
// every form, or a sanitizer's own would meet ours in one allocation
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { try { return vm::take(n); } catch (...) { return nullptr; } }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { try { return vm::take(n); } catch (...) { return nullptr; } }
void operator delete(void* p, const std::nothrow_t&) noexcept { vm::give(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { vm::give(p); }
void* operator new(std::size_t n, std::align_val_t a) { return vm::take(n, (std::size_t)a); }
void* operator new[](std::size_t n, std::align_val_t a) { return vm::take(n, (std::size_t)a); }
void* operator new(std::size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { try { return vm::take(n, (std::size_t)a); } catch (...) { return nullptr; } }
void* operator new[](std::size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { try { return vm::take(n, (std::size_t)a); } catch (...) { return nullptr; } }
void operator delete(void* p, std::align_val_t) noexcept { vm::give(p); }
void operator delete[](void* p, std::align_val_t) noexcept { vm::give(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { vm::give(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { vm::give(p); }
void operator delete(void* p, std::align_val_t, const std::nothrow_t&) noexcept { vm::give(p); }
void operator delete[](void* p, std::align_val_t, const std::nothrow_t&) noexcept { vm::give(p); }
#endif

// -------------------------------------------------------------------- random
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { for (int i = 0; i < 4; ++i) next(); }
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  long long in(long long a, long long b) { return a + (long long)below(uint64_t(b - a + 1)); }
  double uni() { return double(next() >> 11) * 0x1.0p-53; }
  double uni(double a, double b) { return a + (b - a) * uni(); }
  double logu(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
  bool coin(double p = 0.5) { return uni() < p; }
  Rng split() { return Rng(next()); }
  template <class V> auto& pick(V& v) { return v[below(v.size())]; }
};
inline uint64_t hash_str(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
inline std::string fmt(const char* f, ...) {
  char b[1800]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}

// ------------------------------------------------------------------- context
struct Ctx {
  std::string prop, out, prog, only;
  uint64_t seed = 1; bool thorough = false;
  unsigned shard = 0, nshards = 1;
  FILE* fo = nullptr;
  long long index = 0, evals = 0, checks = 0, viols = 0;
  std::string cur; bool cur_ran = false;
  std::unordered_set<uint64_t> nontrivial;
  std::map<std::string, long long> stats;
  std::map<std::string, double> maxima;
  std::vector<std::string> samples;
  std::map<std::string, int> per_key;
  std::mutex mx;

  static std::string esc(const std::string& s) {
    std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) r += ' '; else if (c > 126) r += '?'; else r += c; } return r;
  }
  void init(int argc, char** argv) {
    for (int i = 1; i + 1 < argc; i += 2) {
      std::string k = argv[i], v = argv[i + 1];
      if (k == "--prop") prop = v; else if (k == "--out") out = v; else if (k == "--prog") prog = v;
      else if (k == "--only") only = v; else if (k == "--seed") seed = strtoull(v.c_str(), 0, 10);
      else if (k == "--tier") thorough = (v == "thorough");
      else if (k == "--shard") { sscanf(v.c_str(), "%u/%u", &shard, &nshards); }
    }
    fo = out.empty() ? stdout : fopen(out.c_str(), "w");
    if (!fo) { perror("out"); _exit(70); }
    if (!prog.empty()) { vm::prog_fd = open(prog.c_str(), O_CREAT | O_RDWR | O_TRUNC, 0644); char z[4096] = {0}; if (pwrite(vm::prog_fd, z, sizeof z, 0) < 0) _exit(70); }
    vm::byte_budget = 2600ll << 20;
  }
  // A case: runs in exactly one shard; its name is the replay handle.
  bool begin(const std::string& name) {
    long long i = index++;
    if (!only.empty()) { if (name != only) { cur_ran = false; return false; } }
    else if ((((uint64_t)i * 2654435761u) >> 7) % nshards != shard) { cur_ran = false; return false; }
    cur = name; cur_ran = true; ++evals;
    if (vm::prog_fd >= 0) { char b[1024]; size_t n = std::min(name.size(), sizeof b - 1); memset(b, 0, sizeof b); memcpy(b, name.data(), n); if (pwrite(vm::prog_fd, b, sizeof b, 0) < 0) {} }
    vm::news = 0;
    return true;
  }
  Rng rng(const std::string& salt) const { return Rng(seed ^ hash_str(salt)); }
  Rng case_rng() const { return Rng(seed ^ hash_str(cur)); }
  void nontriv(const std::string& sig) { nontrivial.insert(hash_str(sig)); if (samples.size() < 6 && nontrivial.size() % 97 == 1) samples.push_back(sig); }
  void nontriv() { nontriv(cur); }
  void stat(const std::string& k, long long n = 1) { stats[k] += n; }
  void peak(const std::string& k, double v) { auto& m = maxima[k]; if (v > m) m = v; }
  void violation(const std::string& key, const std::string& msg) {
    std::lock_guard<std::mutex> g(mx);
    ++viols;
    if (per_key[key]++ >= 3) return;
    if (per_key.size() > 200) return;
    fprintf(fo, "{\"t\":\"viol\",\"key\":\"%s\",\"case\":\"%s\",\"msg\":\"%s\"}\n", esc(key).c_str(), esc(cur).c_str(), esc(msg).c_str());
    fflush(fo);
  }
  bool ok(bool c, const std::string& key, const std::string& msg = "") { ++checks; if (!c) violation(key, msg); return c; }
  template <class F> bool okf(bool c, const std::string& key, F&& f) { ++checks; if (!c) violation(key, f()); return c; }
  // run f; an exception that escapes is itself a violation of the property
  template <class F> void guard(F&& f) {
    try { f(); }
    catch (const std::exception& e) { violation("exception", std::string("unexpected exception: ") + e.what()); }
    catch (...) { violation("exception", "unexpected non-std exception"); }
  }
  int finish() {
    fprintf(fo, "{\"t\":\"sum\",\"evals\":%lld,\"checks\":%lld,\"viols\":%lld,\"stats\":{", evals, checks, viols);
    bool f = true; for (auto& [k, v] : stats) { fprintf(fo, "%s\"%s\":%lld", f ? "" : ",", esc(k).c_str(), v); f = false; }
    fprintf(fo, "},\"maxima\":{"); f = true;
    for (auto& [k, v] : maxima) { fprintf(fo, "%s\"%s\":%.6g", f ? "" : ",", esc(k).c_str(), std::isfinite(v) ? v : 1e300); f = false; }
    fprintf(fo, "},\"samples\":["); f = true;
    for (auto& s : samples) { fprintf(fo, "%s\"%s\"", f ? "" : ",", esc(s).c_str()); f = false; }
    fprintf(fo, "],\"nontrivial\":["); f = true;
    for (auto h : nontrivial) { fprintf(fo, "%s\"%llx\"", f ? "" : ",", (unsigned long long)h); f = false; }
    fprintf(fo, "]}\n{\"t\":\"done\"}\n"); fflush(fo);
    return 0;
  }
};

// bit-exact comparison helpers
template <class T> inline bool same_bits(const T& a, const T& b) { return (a == b) || (a != a && b != b); }
template <class T, size_t N> inline bool same_bits(const std::array<T, N>& a, const std::array<T, N>& b) { for (size_t i = 0; i < N; ++i) if (!same_bits(a[i], b[i])) return false; return true; }
template <class V> inline bool same_vec(const V& a, const V& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!same_bits(a[i], b[i])) return false; return true; }
