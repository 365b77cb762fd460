// HDMI character classifier of one channel: every pair of consecutive 10-bit characters.
#include "tmds.hpp"
static const uint16_t TERC4[16] = {0x29C, 0x263, 0x2E4, 0x2E2, 0x171, 0x11E, 0x18E, 0x13C, 0x2CC, 0x139, 0x19C, 0x2C6, 0x28E, 0x271, 0x163, 0x2C3};
static const uint16_t VGB[3] = {0x2CC, 0x133, 0x2CC};
#define DGB 0x133
#define HIST 6
struct Sym { uint16_t w; uint8_t v; };
static const uint64_t N_CHUNKS = 1024;
static void chunk(uint64_t k, Ctx& c) {
  Regs r; In i; Wires w; Out o;
  memset(&w, 0, sizeof w); memset(&o, 0, sizeof o);
  dut_init(r);
  Sym h[HIST]; int n = 0; unsigned lat = (1 << HIST) - 2;
  for (int x = 0; x < 2048 + 2 * HIST; x++) {
    Sym s = (x & 1) ? Sym{(uint16_t)k, 1} : Sym{(uint16_t)((x >> 1) & 1023), (uint8_t)((x >> 2) % 7 != 3)};
    memmove(h + 1, h, sizeof(Sym) * (HIST - 1));
    h[0] = s;
    if (n < HIST) n++;
    in_init(i); i.raw = s.w; i.valid = s.v; i.de = x & 1; i.d = x; i.c = x >> 3;
    c.comb(r, i, w, o);
    if (n == HIST) {
      unsigned keep = 0;
      for (int L = 1; L < HIST; L++) if (lat & (1 << L)) {
        Sym e = h[L];
        int ct = 0; bool ctl = tmds_isctl(e.w, &ct), dgb = e.w == DGB, vgb = e.w == VGB[CH];
        if (CH == 1) dgb = vgb = dgb || vgb;    // the green guard bands are the same character
        bool ok;
        if (!e.v) ok = !o.c_valid && !o.dgb && !o.vgb && !o.deo;
        else ok = o.c_valid == ctl && o.dgb == dgb && o.vgb == vgb && o.deo == !(ctl || dgb || vgb) && (!ctl || o.co == ct);
        for (int t = 0; t < 16; t++) if (e.w == TERC4[t] && o.dt != t) ok = false;
        if (ok) keep |= 1u << L;
      }
      c.cover(0);
      if (!keep) {
        c.fail("c_valid=%d c=%d dgb=%d vgb=%d de=%d d=%d is the classification of no recent input (characters %03x %03x %03x)", (int)o.c_valid, (int)o.co, (int)o.dgb,
               (int)o.vgb, (int)o.deo, (int)o.dt, h[1].w, h[2].w, h[3].w);
        return;
      }
      lat = keep;
    }
    c.edge(0, r, i, w);
  }
}
