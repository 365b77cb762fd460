// DVI mode: data enable is the decoder's data enable of channel 0, delayed like the pixel data.
#include "tmds.hpp"
struct Mon { uint8_t hist, n; };
static void start(Regs& r, Mon& m, Ctx& c) { dut_init(r); memset(&m, 0, sizeof m); }
static void step(Regs& r, Mon& m, Ctx& c) {
  In i; Wires w; Out o;
  in_init(i); memset(&w, 0, sizeof w); memset(&o, 0, sizeof o);
  int k = c.choose(5);
  static const uint16_t W[5] = {0x100, 0x354, 0x0AB, 0x2CC, 0x133};
  bool ctl = tmds_isctl(W[k]);
  i.valid = 1; i.dvi = 1;
  i.raw0 = W[k]; i.raw1 = k == 3 ? 0x133 : W[k]; i.raw2 = W[k]; i.de0 = i.de1 = i.de2 = !ctl;
  m.hist = (m.hist << 1 | !ctl) & 3; if (m.n < 6) m.n++;
  c.comb(r, i, w, o);
  if (m.n >= 6) { if (o.de != ((m.hist >> 1) & 1)) c.fail("DVI mode: data enable is not the pixel data's"); c.cover(o.de); }
  c.edge(0, r, i, w);
}
