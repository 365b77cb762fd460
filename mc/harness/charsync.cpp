// Character alignment.  Raw 10-bit words carry a character stream at an unknown phase: the character
// that starts at bit p of a word continues in the next one.  Reference bookkeeping on the raw words:
// run[p] = number of consecutive words whose window at p is a control character.
#include "fast.hpp"
#include "tmds.hpp"
#define HIST 6          // raw words remembered
#ifndef REQ
#define REQ 8
#endif
#define ACT 5           // words after which an acquired phase must be in effect
struct Mon {
  uint16_t raw[HIST];   // raw words, newest first
  uint8_t run[10];      // saturates at REQ+1
  uint16_t allowed;     // phases the output may use
  int8_t must; uint8_t mustage;   // phase that must be in use (acquired), words since acquisition
  uint8_t ever;         // some phase ever reached REQ
  uint8_t lat;          // possible latencies between a raw word pair and its character (mask)
  uint8_t quiet;        // words since the phase in use last may have changed, saturating
  uint16_t prev; uint8_t ph;      // stimulus: last character and phase
  uint8_t pad;
};
static inline unsigned win(const Mon& m, int L, int p) { return ((m.raw[L + 1] | (unsigned)m.raw[L] << 10) >> p) & 0x3ff; }
static inline void word(Regs& r, Mon& m, Ctx& c, unsigned raw) {
  In i; Wires w; Out o;
  in_init(i); memset(&w, 0, sizeof w); memset(&o, 0, sizeof o);
  memmove(m.raw + 1, m.raw, sizeof(uint16_t) * (HIST - 1));
  m.raw[0] = raw;
  i.raw = raw;
  c.comb(r, i, w, o);
  // which phases may / must be used
  uint16_t now = 0;
  int uniq = -1, nm = 0;
  for (int p = 0; p < 10; p++) {
    if (tmds_isctl(win(m, 0, p))) { if (m.run[p] < REQ + 1) m.run[p]++; nm++; uniq = p; } else m.run[p] = 0;
    if (m.run[p] >= REQ) now |= 1 << p;
  }
  if (now) {
    m.allowed |= now; m.ever = 1; m.quiet = 0;
    // any other phase reaching REQ lifts the obligation; REQ+1 in a row at one phase creates it
    if (m.must >= 0 && (now & ~(1 << m.must))) m.must = -1;
    for (int p = 0; p < 10; p++) if (m.run[p] == REQ + 1 && (now == (1 << p)) && m.must != p) { m.must = p; m.mustage = 0; }
  }
  if (m.must >= 0 && m.mustage < 200) m.mustage++;
  if (m.quiet < ACT + 2) m.quiet++;
  // the output is the window of one allowed phase, at one fixed latency
  bool locked = m.must >= 0 && m.mustage > ACT;
  uint8_t keep = 0; uint16_t used = 0;
  for (int L = 1; L < HIST - 1; L++) if (m.lat & (1 << L)) {
    for (int p = 0; p < 10; p++) if ((m.allowed >> p & 1) && (!locked || p == m.must) && o.data == win(m, L, p)) { keep |= 1 << L; used |= 1 << p; }
  }
  if (!keep) {
    if (locked) c.fail("after %d consecutive control characters at phase %d the data %03x is not the stream at that phase", REQ + 1, m.must, (int)o.data);
    else c.fail("data %03x is the stream at no phase that had %d consecutive control characters", (int)o.data, REQ);
    return;
  }
  m.lat = keep;
  if (locked) {
    c.cover(1);
    if (!o.synced) { c.fail("not synchronised although phase %d was acquired", m.must); return; }
    if (m.mustage > ACT + 4 + LAG && (o.ctl_pos != m.must || !o.char_synced)) {
      c.fail("status registers read synced=%d position=%d, the stream is synchronised at %d", (int)o.char_synced, (int)o.ctl_pos, m.must); return;
    }
    if (m.mustage > ACT + 6 + LAG) m.mustage = ACT + 6 + LAG;
  }
  if (o.synced && !m.ever) { c.fail("synchronised without %d consecutive control characters", REQ); return; }
  if (!m.ever && o.char_synced) { c.fail("status register reads synchronised without %d consecutive control characters", REQ); return; }
  { int L = HIST - 2; while (L > 1 && !(m.lat & (1 << L))) L--; for (int q = L + 1; q < HIST; q++) m.raw[q] = 0; }
  // phases no longer possible: once an acquisition has settled only that phase is in use
  if (locked && m.quiet > ACT) m.allowed = 1 << m.must;
  EDGE();
}
static inline void chr(Regs& r, Mon& m, Ctx& c, unsigned ch) {
  unsigned p = m.ph;
  unsigned raw = ((m.prev >> (10 - p)) | (ch << p)) & 0x3ff;
  m.prev = ch;
  word(r, m, c, raw);
}
static inline void mon_init(Mon& m) { memset(&m, 0, sizeof m); m.must = -1; m.allowed = 1; m.lat = (1 << (HIST - 1)) - 2; }
#ifdef SWEEP
// first phase x second phase x second-run length x control pattern, with legal data in between
static const uint64_t N_CHUNKS = 10 * 10 * (REQ + 5) * 6;
static void chunk(uint64_t k, Ctx& c) {
  int p1 = k % 10, p2 = k / 10 % 10, n = k / 100 % (REQ + 5), pat = k / 100 / (REQ + 5);
  Regs r; Mon m;
  dut_init(r); mon_init(m);
  auto ctl = [&](int q) { return TMDS_CTL[pat < 4 ? pat : pat == 4 ? q & 3 : (q * 7 / 3) & 3]; };
  int cnt = 0;
  uint32_t seed = (uint32_t)(k * 2654435761u) | 1;
  auto data = [&](int len) { for (int q = 0; q < len && !c.failed; q++) { seed = seed * 1664525u + 1013904223u; chr(r, m, c, tmds_encode(seed >> 24, cnt)); } };
  m.ph = p1;
  data(12);
  for (int q = 0; q < REQ + 3 && !c.failed; q++) chr(r, m, c, ctl(q));
  data(12);
  if (!c.failed && m.must != p1) { c.fail("harness: phase was not acquired"); return; }
  c.cover(2);
  m.ph = p2;
  for (int q = 0; q < n && !c.failed; q++) chr(r, m, c, ctl(q + 1));
  data(k % 53 == 5 ? 6000 : 12);
  if (n < REQ) c.cover(3); else c.cover(4);
  for (int g = 0; g < 3; g++) { for (int q = 0; q < REQ + 1 + g && !c.failed; q++) chr(r, m, c, ctl(q * g)); data(8 + g); }
  c.cover(0);
}
#else
static void start(Regs& r, Mon& m, Ctx& c) {
  dut_init(r); mon_init(m);
  // an odd word in front pins the latency down
  for (int q = 0; q < HIST + 3; q++) word(r, m, c, (0x211 * (q + 1) + 7 * q) & 0x3ff);
  m.prev = m.raw[0];
}
static void step(Regs& r, Mon& m, Ctx& c) {
  // control characters, data, a control character rotated by half a word, a slip of the stream
  int k = c.choose(4 + NSLIP);
  if (k >= 4) { m.ph = (m.ph + 3 + 4 * (k - 4)) % 10; k = 0; if (m.run[m.ph] == 0) c.cover(3); }
  static const uint16_t A[4] = {0x354, 0x0AB, 0x1F0, ((0x154 << 5) | (0x154 >> 5)) & 0x3ff};
  if (m.must >= 0) c.cover(2);
  chr(r, m, c, A[k]);
}
#endif
