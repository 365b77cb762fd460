// TMDS encoder (optionally followed by the decoder, LINK).  Latency is discovered, then fixed:
// `lat` is a mask of the latencies consistent with everything seen so far in this run.
#include "fast.hpp"
#include "tmds.hpp"
#define HIST 10
struct Sym { uint16_t out; uint8_t d, c, de; };
struct Mon { Sym h[HIST]; uint8_t n; uint16_t lat; int8_t cnt; };
static inline void one(Regs& r, Mon& m, Ctx& c, int de, int d, int ct) {
  In i; Wires w; Out o;
  in_init(i); memset(&w, 0, sizeof w); memset(&o, 0, sizeof o);
  i.d = d; i.c = ct; i.de = de;
  Sym s{};
  int cnt = m.cnt;
  if (de) { s.out = tmds_encode(d, cnt); s.d = d; s.de = 1; } else { s.out = TMDS_CTL[ct]; cnt = 0; s.c = ct; }
  if (cnt > 10 || cnt < -10) c.fail("reference disparity out of bounds");
  memmove(m.h + 1, m.h, sizeof(Sym) * (HIST - 1));
  m.h[0] = s; m.cnt = cnt;
  if (m.n < HIST) m.n++;
  c.comb(r, i, w, o);
  // before the symbol of this cycle is clocked in, the output shows a symbol of `L` cycles ago
  if (m.n == HIST) {
    uint16_t keep = 0;
    for (int L = 1; L < HIST; L++) if (m.lat & (1 << L)) {
#ifdef LINK
      const Sym& e = m.h[L];
      bool ok = o.de == e.de && (e.de ? o.d == e.d : o.c == e.c) && o.raw == e.out;
      // control bits hold their last value while data is enabled
#else
      bool ok = o.out == m.h[L].out;
#endif
      if (ok) keep |= 1 << L;
    }
    m.lat = keep;
    c.cover(0);
    if (de) c.cover(1);
    if (m.cnt > 6 || m.cnt < -6) c.cover(2);
    if (!keep) {
#ifdef LINK
      c.fail("decoded de=%d d=%02x c=%d raw=%03x matches no sent symbol of any fixed latency", (int)o.de, (int)o.d, (int)o.c, (int)o.raw);
#else
      c.fail("encoder output %03x is not the DVI encoding of the input at any fixed latency", (int)o.out);
#endif
    }
  }
  EDGE();
}
static inline void mon_init(Mon& m) { memset(&m, 0, sizeof m); m.lat = (1 << HIST) - 2; }
#ifdef SWEEP
// every sequence of SEQ words after blanking (SEQ=3: 2^24 sequences), then two control characters;
// chunk = first word, second word
static const uint64_t N_CHUNKS = 65536;
static void chunk(uint64_t k, Ctx& c) {
  Regs r; Mon m;
  dut_init(r); mon_init(m);
  for (int q = 0; q < 12; q++) one(r, m, c, 0, 0, q & 3);
  uint16_t lat = 0;
  for (int x = 0; x < 256 && !c.failed; x++) {
    one(r, m, c, 1, k & 255, 0);
    one(r, m, c, 1, k >> 8, 0);
    one(r, m, c, 1, x, 0);
    one(r, m, c, 0, x, (x ^ k) & 3);
  }
  for (int q = 0; q < HIST && !c.failed; q++) one(r, m, c, 0, 0, q & 3);
}
#else
// the warm-up determines the latency; only the symbols still in flight are kept in the state
static inline void forget(Mon& m) {
  int L = HIST - 1;
  while (L > 1 && !(m.lat & (1 << L))) L--;
  for (int k = L; k < HIST; k++) m.h[k] = Sym{};
}
static void start(Regs& r, Mon& m, Ctx& c) {
  dut_init(r); mon_init(m);
  for (int q = 0; q < 2 * HIST; q++) one(r, m, c, 0, 0, (0x1b7c29e4 >> (q % 10) * 2) & 3);
  forget(m);
}
static void step(Regs& r, Mon& m, Ctx& c) {
  // words whose transition-minimised form is unbalanced both ways, balanced, and both 9th-bit cases
  static const uint8_t A[] = {
#ifdef ALPHA2
    0x00, 0xff, 0x10, 0x55, 0x80, 0x7f
#else
    0x00, 0xff, 0x10, 0xe6
#endif
  };
  int k = c.choose((int)sizeof A + 1);
  if (k == 0) one(r, m, c, 0, 0, 2);
  else one(r, m, c, 1, A[k - 1], 0);
  forget(m);
}
#endif
