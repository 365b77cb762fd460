// TMDS character decoder: every pair of consecutive 10-bit characters, with the valid flag of each.
// chunk = first character.  Latency is discovered (mask) and must be one constant for all outputs.
#include "tmds.hpp"
#define HIST 8
struct Sym { uint16_t w; uint8_t v; };
static const uint64_t N_CHUNKS = 1024;
static void chunk(uint64_t k, Ctx& c) {
  Regs r; In i; Wires w; Out o;
  memset(&w, 0, sizeof w); memset(&o, 0, sizeof o);
  dut_init(r);
  Sym h[HIST]; int n = 0; unsigned lat = (1 << HIST) - 2;
  // the control bits hold their value through data characters: carried along the symbol history
  uint8_t hc[HIST]; memset(hc, 0, sizeof hc); int cc = 0;
  for (int x = 0; x < 2048 + 2 * HIST; x++) {
    Sym s;
    if (x < 2048) s = (x & 1) ? Sym{(uint16_t)k, (uint8_t)((x >> 1) & 1)} : Sym{(uint16_t)(x >> 1), (uint8_t)((x >> 2) & 1)};
    else s = Sym{TMDS_CTL[(x / 3) & 3], (uint8_t)(x % 5 < 2)};
    memmove(h + 1, h, sizeof(Sym) * (HIST - 1)); memmove(hc + 1, hc, HIST - 1);
    int ct;
    if (tmds_isctl(s.w, &ct)) cc = ct;
    h[0] = s; hc[0] = cc;
    if (n < HIST) n++;
    in_init(i); i.raw = s.w; i.valid = s.v;
    c.comb(r, i, w, o);
    if (n == HIST) {
      unsigned keep = 0;
      for (int L = 1; L < HIST; L++) if (lat & (1 << L)) {
        const Sym& e = h[L];
        int ct = 0;
        bool ctl = tmds_isctl(e.w, &ct);
        bool ok = o.de == !ctl && o.rawo == e.w && o.valid_o == e.v && (ctl ? o.c == ct : o.d == tmds_decode(e.w));
        if (ok) keep |= 1u << L;
      }
      c.cover(0);
      if (!keep) {
        c.fail("de=%d c=%d d=%02x raw=%03x valid=%d is the decoding of no recent input (characters %03x %03x %03x %03x)", (int)o.de, (int)o.c,
               (int)o.d, (int)o.rawo, (int)o.valid_o, h[1].w, h[2].w, h[3].w, h[4].w);
        return;
      }
      lat = keep;
    }
    c.edge(0, r, i, w);
  }
}
