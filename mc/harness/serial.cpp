// Output drivers: the bits on each data lane, in transmission order, are the TMDS characters of the
// pixel stream: lane 0 blue with hsync/vsync in blanking, lane 1 green, lane 2 red; raw mode passes
// the three characters through.  One latency for all lanes.  `clk` words on the clock lane.
#include "tmds.hpp"
#define HIST 12
struct Sym { uint16_t w[3]; };
#ifdef CLKLANE
#define LANES 4
#else
#define LANES 3
#endif
struct Mon { Sym h[HIST]; int n; unsigned lat; int cnt[3]; };
static inline void px(Regs& r, Mon& m, Ctx& c, In& i, int de, int R, int G, int B, int hs, int vs) {
  Wires w; Out o; memset(&w, 0, sizeof w); memset(&o, 0, sizeof o);
  Sym s;
#ifdef RAW
  i.c0 = (R | hs << 8 | vs << 9) & 0x3ff; i.c1 = (G * 4 + de) & 0x3ff; i.c2 = (B * 3 + G) & 0x3ff;
  s.w[0] = i.c0; s.w[1] = i.c1; s.w[2] = i.c2;
  i.de = de; i.hsync = hs; i.vsync = vs;
#else
  i.r = R; i.g = G; i.b = B; i.de = de; i.hsync = hs; i.vsync = vs;
  int v[3] = {B, G, R}, ct[3] = {hs | vs << 1, 0, 0};
  for (int q = 0; q < 3; q++) { if (de) s.w[q] = tmds_encode(v[q], m.cnt[q]); else { s.w[q] = TMDS_CTL[ct[q]]; m.cnt[q] = 0; } }
#endif
  memmove(m.h + 1, m.h, sizeof(Sym) * (HIST - 1)); m.h[0] = s; if (m.n < HIST) m.n++;
  unsigned got[4] = {0, 0, 0, 0};
#ifdef SET_WRONG
  c.fail("%s", SET_WRONG); return;
#endif
#ifdef S7
  c.comb(r, i, w, o);
  got[0] = o.l0; got[1] = o.l1; got[2] = o.l2;
#ifdef CLKLANE
  got[3] = o.l3;
#endif
#else
  // two half words per pixel, the first at the edge in the middle of the pixel clock period
  i.pixclk = 1; c.comb(r, i, w, o); if (!o.ready) c.fail("not ready");
  c.edge(0, r, i, w);                        // fast clock only
  i.pixclk = 0; i.strobe = m.n & 1 ^ de; c.comb(r, i, w, o);
  got[0] = o.l0; got[1] = o.l1; got[2] = o.l2;
  c.edge(1, r, i, w);                        // both clocks
  c.comb(r, i, w, o);
  got[0] |= o.l0 << 5; got[1] |= o.l1 << 5; got[2] |= o.l2 << 5;
#endif
  if (!o.ready) { c.fail("the driver does not accept every pixel"); return; }
  if (m.n == HIST) {
    unsigned all = (1u << 2 * LANES) - 1;
    if (o.ce != all || o.rst) { c.fail("the serializers are disabled (enables %x, resets %x)", (unsigned)o.ce, (unsigned)o.rst); return; }
#ifndef S7
    if (o.io != (i.strobe ? all : 0)) { c.fail("the serializers' load strobes are %x with the strobe %d", (unsigned)o.io, (int)i.strobe); return; }
#endif
  }
#ifndef S7
  if (!o.ckce || o.ckrs) { c.fail("the clock lane is disabled"); return; }
  if (o.ck0 != !INVC || o.ck1 != INVC) { c.fail("clock lane outputs %d in the first half of the pixel clock and %d in the second", (int)o.ck0, (int)o.ck1); return; }
#endif
#ifdef CLKLANE
  if (m.n == HIST) {
    // five ones and five zeros, contiguous
    unsigned k = got[3] ^ (INVC ? 0x3ff : 0);
    if (k != 0x01f && k != 0x3e0) { c.fail("clock lane sends %03x", got[3]); return; }
  }
#endif
  if (m.n == HIST) {
    unsigned keep = 0;
    for (int L = 0; L < HIST; L++) if (m.lat & (1 << L)) {
      bool ok = true;
      for (int q = 0; q < 3; q++) if ((got[q] ^ ((INV >> q & 1) ? 0x3ff : 0)) != m.h[L].w[q]) ok = false;
      if (ok) keep |= 1 << L;
    }
    if (!keep) { c.fail("lanes send %03x %03x %03x, which no recent pixel encodes to", got[0], got[1], got[2]); return; }
    m.lat = keep;
    c.cover(0);
  }
#ifdef S7
  c.edge(0, r, i, w);
#endif
}
static const uint64_t N_CHUNKS = 64;
static void chunk(uint64_t k, Ctx& c) {
  Regs r; Mon m; In i;
  dut_init(r); memset(&m, 0, sizeof m); m.lat = (1 << HIST) - 1; in_init(i);
#ifdef LOCK
  i.locked = 1;
#endif
#ifndef S7
  { Wires w; Out o; memset(&w, 0, sizeof w); i.pixclk = 0; c.comb(r, i, w, o); c.edge(1, r, i, w); }
#endif
  for (int q = 0; q < 12; q++) px(r, m, c, i, 0, q, q, q, q & 1, q >> 1 & 1);
  m.n = 0;
  for (int q = 0; q < 1100 && !c.failed; q++) {
    int de = (q / (5 + (int)(k % 7))) & 1;
    int x = (int)((q * 37 + k * 11) & 255), y = (int)((q * 91 + k * 53 + (q >> 8) * 7) & 255), z = (int)((q * 201 + k * 119 + (q >> 8)) & 255);
    px(r, m, c, i, de, x, y, z, (q >> 1) & 1, ((q >> 2) ^ k) & 1);
  }
}
