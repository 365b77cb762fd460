// Explicit-state exploration of a translated design.
//
// A harness defines Mon (monitor state, POD), init(State&, Ctx&) and step(State&, Ctx&), or
// N_CHUNKS and chunk(uint64_t, Ctx&) in sweep mode.  Nondeterminism goes through Ctx::choose(n);
// every combination of choices is executed from every reachable state.
#pragma once
#include <algorithm>
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>

static thread_local const char* g_simerr = nullptr;
static inline void sim_error(const char* m) { if (!g_simerr) g_simerr = m; }
template <class T> static inline T shr(T a, int64_t b) {
  if (b < 0) { sim_error("negative shift count"); return 0; }
  if (b >= (int64_t)(sizeof(T) * 8)) return a < 0 ? (T)-1 : (T)0;
  return (T)(a >> b);
}
template <class T> static inline T shl(T a, int64_t b) {
  if (b < 0) { sim_error("negative shift count"); return 0; }
  if (b >= (int64_t)(sizeof(T) * 8)) return 0;
  return (T)(a << b);
}
static inline size_t clampi(int64_t v, int64_t m) { return v > m ? (size_t)m : (size_t)v; }

template <class T> static void print_val(FILE* f, T v, int bits) {
  if (bits <= 64) {
    uint64_t x = (uint64_t)v;
    if (bits < 64) x &= ((1ull << bits) - 1);
    fprintf(f, " %llx", (unsigned long long)x);
  } else {
    int n = (bits + 31) / 32;
    fputc(' ', f);
    for (int k = n - 1; k >= 0; k--) fprintf(f, "%08x", (unsigned)(uint32_t)(v >> (32 * k)));
  }
}

#include "dut.hpp"

#ifndef N_COVERS
#define N_COVERS 64
#endif

struct Ctx {
  std::vector<int> c, n;       // odometer
  size_t pos = 0;
  bool failed = false, pruned = false;
  char msg[512];
  uint64_t covers[N_COVERS] = {0};
  uint64_t knowns[16] = {0};
  uint64_t cycles = 0;
  FILE* trace = nullptr;
  bool sample = false;         // a conformance trace: harnesses may stop early
  uint64_t rng = 0;            // !=0: random walk
  int wlen = 0, wpos = 0;      // !=0: choices are the digits of successive words of wlen choices
  uint64_t word = 0, left = 0;
  int choose(int k) {
    if (k <= 1) return 0;
    if (wlen) {
      if (wpos == 0) left = word++;
      wpos = (wpos + 1) % wlen;
      int d = (int)(left % (uint64_t)k);
      left /= (uint64_t)k;
      return d;
    }
    if (rng) {
      rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
      return (int)((rng >> 11) % (uint64_t)k);
    }
    if (pos == c.size()) { c.push_back(0); n.push_back(k); }
    else if (n[pos] != k) { fprintf(stderr, "engine: nondeterministic replay\n"); abort(); }
    return c[pos++];
  }
  bool next() {  // advance odometer
    while (!c.empty()) {
      if (++c.back() < n.back()) return true;
      c.pop_back(); n.pop_back();
    }
    return false;
  }
  void begin() { pos = 0; pruned = false; }
  void fail(const char* fmt, ...) {
    if (failed) return;
    failed = true;
    va_list ap; va_start(ap, fmt); vsnprintf(msg, sizeof msg, fmt, ap); va_end(ap);
  }
  void prune() { pruned = true; }
  void cover(int k) { covers[k]++; }
  void known(int k) { knowns[k]++; }
  inline void comb(const Regs& r, const In& i, Wires& w, Out& o) {
    comb_impl(r, i, w, o);
    if (__builtin_expect(trace != nullptr, 0)) {
      fputs("C", trace); print_in(trace, i); fputs(" |", trace); print_out(trace, o); fputc('\n', trace);
    }
    if (__builtin_expect(g_simerr != nullptr, 0)) { fail("simulation error: %s", g_simerr); g_simerr = nullptr; }
  }
  inline void edge(int k, Regs& r, const In& i, const Wires& w) {
    cycles++;
    if (__builtin_expect(trace != nullptr, 0)) fprintf(trace, "E %d\n", k);
    edge_impl(k, r, i, w);
    if (__builtin_expect(g_simerr != nullptr, 0)) { fail("simulation error: %s", g_simerr); g_simerr = nullptr; }
  }
};
