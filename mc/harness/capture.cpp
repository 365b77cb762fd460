// Deserialiser: the ten-bit words are the received bits in order, none lost, repeated or reordered.
// CHUNK bits arrive per fast edge; the fast and the pixel clock may have any relative phase.
#include <vector>
#ifdef S7
#define BITS 8
#define FAST 4
#define SLOW 5
#define PHASES 20
#else
#define BITS 5
#define FAST 1
#define SLOW 2
#define PHASES 2
#endif
#define NPAT 90
static const uint64_t N_CHUNKS = PHASES * NPAT;
static void chunk(uint64_t k, Ctx& c) {
  int ph = k % PHASES, pat = k / PHASES;
  Regs r; In i; Wires w; Out o;
  memset(&w, 0, sizeof w); memset(&o, 0, sizeof o);
  dut_init(r); in_init(i);
#ifdef SET_WRONG
  c.fail("%s", SET_WRONG); return;
#endif
  std::vector<uint8_t> in; std::vector<uint8_t> out;
  uint32_t s = 0x1234567u + pat * 7919u;
  auto bit = [&]() -> int {
    size_t n = in.size();
    if (pat < 80) { s = s * 1664525u + 1013904223u; int b = n < 2000 ? (s >> 25) & 1 : ((int)(n % 80) == pat); in.push_back(b); return b; }
    s = s * 1664525u + 1013904223u; int b = (s >> (17 + pat % 8)) & 1; in.push_back(b); return b;
  };
  auto feed = [&]() {
    unsigned q = 0;
    for (int b = 0; b < BITS; b++) q |= (unsigned)bit() << b;     // bit 0 is the oldest
#ifdef S7
    i.m7 = q & 1; i.m6 = q >> 1 & 1; i.m5 = q >> 2 & 1; i.m4 = q >> 3 & 1; i.m3 = q >> 4 & 1; i.m2 = q >> 5 & 1; i.m1 = q >> 6 & 1; i.m0 = q >> 7 & 1;
#else
    i.s3 = q & 1; i.m0 = q >> 1 & 1; i.m1 = q >> 2 & 1; i.m2 = q >> 3 & 1; i.m3 = q >> 4 & 1;
#endif
  };
  feed();
  int T = FAST * SLOW * 80;
  for (int t = 0; t < T; t++) {
    bool f = t % FAST == 0, p = (t + ph) % SLOW == 0;
    if (!f && !p) continue;
#ifndef S7
    i.strobe = (t ^ pat) & 1;
#endif
    c.comb(r, i, w, o);
    if (o.on != 3 || o.off) c.fail("the deserialisers are disabled (enables %x, resets and slips %x)", (int)o.on, (int)o.off);
#ifndef S7
    if (o.io != (i.strobe ? 3 : 0)) c.fail("the deserialisers' strobes are %x with the strobe %d", (int)o.io, (int)i.strobe);
#endif
    if (c.failed) return;
    if (p) { for (int b = 0; b < 10; b++) out.push_back(o.d >> b & 1); }
    if (f && p) c.edge(2, r, i, w); else if (f) c.edge(0, r, i, w); else c.edge(1, r, i, w);
    if (f) feed();
  }
  // find the alignment on the second half
  size_t skip = 160, n = out.size() - skip; bool found = false;
  for (int lag = -200; lag < 200 && !found; lag++) {
    bool ok = true; size_t cmp = 0;
    for (size_t x = skip; x < out.size() && ok; x++) {
      long y = (long)x + lag;
      if (y < 0 || y >= (long)in.size()) { if (x + 200 < out.size()) ok = false; continue; }
      cmp++;
      if (out[x] != (in[y] ^ INV)) ok = false;
    }
    if (ok && cmp > n / 2) found = true;
  }
  if (!found) { c.fail("the received words are not the serial bits in order (clock phase %d, pattern %d)", ph, pat); return; }
  c.cover(0);
}
