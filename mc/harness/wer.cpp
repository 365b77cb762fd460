// Word error counter.  A word is an error iff it has more than four transitions among its nine low
// bits and is not a control character.  Every reported value counts the errors of one period of
// 2^PB words at a fixed offset, missing at most the one word on the boundary.
#define SYS_IDLE i.update = 0
#define SYS_BUSY i.update
#include "fast.hpp"
#include "tmds.hpp"
static inline bool iserr(unsigned w) {
  if (tmds_isctl(w)) return false;
  return pc((w ^ (w >> 1)) & 0xff) > 4;
}
#ifndef PB
#define PB 3
#endif
#define P (1 << PB)
#ifndef SPAN
#define SPAN 16
#endif
// Sum over complete periods, independent of the offset: in the sweep every word repeats for several
// periods; in BFS mode every sequence over an alphabet.
#ifdef FULL
// whole periods of the real length, every (1 + kk)th word in error
static const uint64_t N_CHUNKS = 3;
static void chunk(uint64_t kk, Ctx& c) {
  Regs r; In i; Wires w; Out o;
  memset(&w, 0, sizeof w); memset(&o, 0, sizeof o);
  dut_init(r);
  int64_t ex = P / (kk + 1);
  for (int64_t t = 0; t < 2ll * P + 64; t++) {
    in_init(i);
    i.data = t % (kk + 1) ? 0x1e0 : 0x0AA;
    i.update = t == 2ll * P + 40;
    c.comb(r, i, w, o); EDGE();
    if (c.sample && t > 2000) return;
  }
  c.comb(r, i, w, o);
  if (o.value < ex - 2 || o.value > ex + 1) c.fail("%u errors reported for %lld bad words in a period of 2^24", (unsigned)o.value, (long long)ex);
  c.cover(0);
}
#elif defined(SWEEP)
// chunk = word; it is sent REP times between runs of other words; total reported must match
// and a single request at any phase of the period reads the number
static const uint64_t N_CHUNKS = 1024 * (1 + P);
static void chunk(uint64_t kk, Ctx& c) {
  Regs r; In i; Wires w; Out o;
  memset(&w, 0, sizeof w); memset(&o, 0, sizeof o);
  dut_init(r);
  const uint64_t k = kk % 1024; const int ph = (int)(kk / 1024) - 1;
  bool e = iserr(k);
  static const uint16_t FILL[] = {0x354, 0x0AB, 0x154, 0x2AB, 0x100, 0x1ff, 0x0ff, 0x10f};
  if (ph >= 0) {
    for (int t = 0; t < 7 * P; t++) {
      in_init(i);
      i.data = (t & 1) ? k : FILL[t / 2 & 7];
      i.update = t == 5 * P + ph;
      int ex = e ? P / 2 : 0;
      c.comb(r, i, w, o);
      if (t <= 5 * P + ph && o.value != 0) { c.fail("the value changed without a request"); return; }
      if (t > 5 * P + ph + 1 && ((int)o.value > ex || (int)o.value < ex - 1)) { c.fail("%u errors read after a request, expected %u", (unsigned)o.value, ex); return; }
      EDGE();
    }
    c.cover(3);
    return;
  }
  // phase 1: 6 periods of legal words, phase 2: 8 periods of w in m out of every 4 words, phase 3: 8 periods of legal words
  for (int m = 1; m <= 4; m++) {
    unsigned mx = 0, mn = ~0u, end = 0;
    int N = 8 * P;
    for (int t = 0; t < 22 * P; t++) {
      bool mid = t >= 6 * P && t < 14 * P;
      in_init(i);
      i.data = (mid && (t & 3) < m) ? k : FILL[(t * 5 + t / 7) & 7];
      i.update = t % 5 == 0;
      c.comb(r, i, w, o);
      if (t == 6 * P && o.value != 0) { c.fail("%u errors reported on legal words", (unsigned)o.value); return; }
      if (t >= 10 * P && t < 14 * P) { mx = std::max<unsigned>(mx, o.value); mn = std::min<unsigned>(mn, o.value); }
      end = o.value;
      EDGE();
    }
    unsigned ex = e ? P / 4 * m : 0, lo = ex ? ex - 1 : 0;
    if (mx > ex || mn < lo) { c.fail("word %03x in %d of 4 positions: %u..%u errors reported per period of %d words, expected %u", (unsigned)k, m, mn, mx, P, ex); return; }
    if (end != 0 && e) { c.fail("%u errors still reported after the errors stopped", end); return; }
    c.cover(0);
    if (e) c.cover(1); else c.cover(2);
  }
}
#else
// Every history.  A hypothesis (f, d, v): the value is renewed when the word count is f mod P and then
// counts the P words that ended d words ago, v = 0 all of them, 1 without the first, 2 without the last.
// A warm-up discards the hypotheses that do not fit; one must then fit for ever.
#define ND 12
struct Mon { uint32_t err; uint8_t t; uint8_t hyp[P * ND]; };
static inline void one(Regs& r, Mon& m, Ctx& c, int k) {
  In i; Wires w; Out o;
  in_init(i); memset(&w, 0, sizeof w); memset(&o, 0, sizeof o);
  i.data = k ? (m.err & 1 ? 0x0AA : 0x356) : (m.err & 1 ? 0x154 : 0x1e0);
  i.update = 1;
  m.err = (m.err << 1 | k) & ((1u << (P + ND)) - 1);
  m.t = (m.t + 1) % P;
  c.comb(r, i, w, o);
  int live = 0;
  for (int f = 0; f < P; f++) for (int d = 0; d < ND; d++) {
    uint8_t& h = m.hyp[f * ND + d];
    if (h && f == m.t) {
      uint32_t win = (m.err >> d) & ((1u << P) - 1);
      int cnt = __builtin_popcount(win);
      if (o.value != cnt % P) h &= ~1;
      if (o.value != cnt - (int)(win >> (P - 1))) h &= ~2;
      if (o.value != cnt - (int)(win & 1)) h &= ~4;
    }
    if (h) live = 1;
  }
  c.cover(0);
  if (o.value == P - 1) c.cover(1);
  if (o.value == 0) c.cover(2);
  if (!live) c.fail("the reported value %u is the error count of no period (errors, newest first: %05x)", (unsigned)o.value, m.err);
  EDGE();
}
static void start(Regs& r, Mon& m, Ctx& c) {
  dut_init(r); memset(&m, 0, sizeof m);
  for (int q = 0; q < 4 * P; q++) { In i; Wires w; Out o; in_init(i); memset(&w, 0, sizeof w); memset(&o, 0, sizeof o); i.data = 0x1e0; i.update = 1; c.comb(r, i, w, o); EDGE(); }
  memset(m.hyp, 7, sizeof m.hyp);
  uint32_t s = 12345;
  for (int q = 0; q < 64 * P; q++) { s = s * 1664525u + 1013904223u; one(r, m, c, (s >> 20) & 1); }
}
static void step(Regs& r, Mon& m, Ctx& c) {
  one(r, m, c, c.choose(2));
  // forget what no live hypothesis looks at: the best one is enough
  int bf = -1, bd = ND;
  for (int f = 0; f < P; f++) for (int d = 0; d < ND; d++) if (m.hyp[f * ND + d] && d < bd) { bd = d; bf = f; }
  if (bf >= 0) {
    for (int q = 0; q < P * ND; q++) if (q != bf * ND + bd) m.hyp[q] = 0;
    // only the word in progress of the window of that hypothesis matters
    int rem = (bf - m.t + P - 1) % P;   // words until just before the next comparison
    int need = P + bd - 1 - rem;
    m.err &= (1u << (need > 0 ? need : 1)) - 1;
  }
}
#endif
