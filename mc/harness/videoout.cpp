// Video output from a memory model to the pads: lanes or VGA signals show exactly the frame buffer's pixels.
// Edges: S7 0 sys, 1 pix, 2 both; S6 0 sys, 1 pix2x, 2 pix+pix2x, 3 sys+pix+pix2x.
#include "tmds.hpp"
#include <deque>
struct P { int hres, hss, hse, hscan, vres, vss, vse, vscan; };
static const P FM[] = {{6, 8, 10, 14, 4, 5, 6, 7}, {8, 9, 10, 17, 3, 3, 4, 5}, {20, 21, 25, 31, 5, 6, 8, 9}, {4, 7, 8, 15, 7, 8, 9, 9}, {16, 17, 19, 24, 2, 2, 4, 4}, {2, 5, 9, 16, 6, 7, 8, 10},
  {6, 6, 7, 7, 4, 4, 5, 5}, {20, 20, 22, 22, 5, 5, 6, 6},      // the shortest blanking
#ifdef YCBCR422
  {2, 2, 3, 3, 6, 6, 7, 7}};
#else
  {7, 7, 9, 9, 1, 1, 2, 3}};
#endif
#define NFM 9
static inline int64_t clampv(int64_t v, int64_t lo, int64_t hi) { return v < lo ? lo : v > hi ? hi : v; }
static inline uint32_t mix(uint32_t x) { x ^= x >> 16; x *= 0x7feb352d; x ^= x >> 15; x *= 0x846ca68b; x ^= x >> 16; return x; }
struct Px { int r, g, b; };
// the last chunks run for LONGRUN pixels before and after the change
#define NLONG 6
#define LONGRUN (TH ? 1000000 : 150000)
static const uint64_t N_CHUNKS = NV + NLONG;
static void chunk(uint64_t kk, Ctx& c) {
  const bool longrun = kk >= NV && !c.sample;
  // two settings; the second one is written while the output is disabled
  struct Set { P T; int frame, words; uint32_t base; } S[2];
  for (int s = 0; s < 2; s++) {
    S[s].T = FM[(kk + s * (1 + kk / NFM)) % NFM];
    S[s].frame = (S[s].T.hscan + 1) * (S[s].T.vscan + 1);
#ifdef RAW
    S[s].words = S[s].frame;
#else
    S[s].words = S[s].T.hres * S[s].T.vres;
#endif
    S[s].base = 0x100 + (kk * 37 % 64) * 8 + s * 0x1230;
  }
  int cur = 0;          // the setting shown
  const uint32_t seed = kk * 1000003 + 77;
  auto mem = [&](uint32_t a) -> uint32_t {
    uint32_t h = mix(a + seed);
    // the first pair tells the settings apart
    for (int s = 0; s < 2; s++) if (a - S[s].base < 2) return DW == 16 ? s ? 0x80eb : 0x8060 : s ? 0xebebeb : 0x606060;
#ifdef RAW
    return (h & 0x3fffffff);
#endif
    // corners more often than by chance
    if (h >> 30 == 0) h = (h & 1 ? 0xff : 0) | (h & 2 ? 0xff00 : 0) | (h & 4 ? 0xff0000 : 0);
    return h & (DW == 16 ? 0xffff : 0xffffff);
  };
  auto expect = [&](int k, int s) -> Px {
    const uint32_t base = S[s].base;
    uint32_t w = mem(base + k);
#ifdef YCBCR422
    uint32_t e = mem(base + (k & ~1)), q = mem(base + (k | 1));
    int64_t y = (int)(w & 255) - 16, pb = (int)(e >> 8 & 255) - 128, pr = (int)(q >> 8 & 255) - 128;
    const double f = 64, ca = 0.1819, cb = 0.0618, cc = 0.5512, cd = 0.6495;
    const int64_t A = (int64_t)(1 / cd * f), B = (int64_t)(-cb / (cc * (1 - ca - cb)) * f), C = (int64_t)(-ca / (cd * (1 - ca - cb)) * f), D = (int64_t)(1 / cc * f);
    return Px{(int)clampv(y + ((pr * A) >> 6), 0, 255), (int)clampv(y + ((pb * B) >> 6) + ((pr * C) >> 6), 0, 255), (int)clampv(y + ((pb * D) >> 6), 0, 255)};
#else
    return Px{(int)(w & 255), (int)(w >> 8 & 255), (int)(w >> 16 & 255)};
#endif
  };
  Regs r; In i; Wires w; Out o; memset(&w, 0, sizeof w); memset(&o, 0, sizeof o);
  dut_init(r); in_init(i);
#ifdef S7
  i.locked = 1;
#endif
  std::deque<std::pair<uint32_t, int>> q;
  const int lat = 1 + kk / NFM % 5, hic = kk / 30 % 3;
  int t = 0, pix = 0;
  const int cut = 3 + mix(kk + 5) % S[0].frame;      // when it is written, positions after the second frame
  int stage = 0, since = 0, quiet = -1;              // 0 first setting only, 1 disabled, 2 second setting; quiet: positions since the output stopped
  bool synced = false; int x = 0, y = 0, k = 0, frames = 0, seenvs = 0;
#ifdef RAW
  unsigned pw[3] = {0, 0, 0}; bool first = true; int rep = 0;
#endif
  auto check = [&](unsigned* l) {       // one pixel clock
#ifdef S7
    if (!i.locked || (stage == 1 && since < 7 * S[0].frame + 36 && since >= 7 * S[0].frame)) return;      // the serialisers come out of their reset
#endif
#ifdef RAW
    if (stage == 1) return;         // the lanes repeat the last word or show those thrown away
    const int words = S[cur].words;
    uint32_t e = mem(S[cur].base + k);
    bool ok = true, same = true;
    for (int j = 0; j < 3; j++) { unsigned g = l[j]; if (g != (e >> (10 * j) & 0x3ff)) ok = false; if (g != pw[j]) same = false; pw[j] = g; }
    if (ok) { synced = true; k++; rep = 0; c.cover(0); if (k == words) { k = 0; frames++; c.cover(1); } }
    else if (synced && (!same || ++rep > 8)) c.fail("lanes send %03x %03x %03x, word %d of the frame is %08x", l[0], l[1], l[2], k, e);
#else
    int de, hs, vs; Px p{0, 0, 0};
#ifdef VGA
    hs = l[0]; vs = l[1]; p = Px{(int)l[2], (int)l[3], (int)l[4]};
    // positions from the syncs
    static thread_local int phs, pvs;
    if (pix < 4) { phs = 1; pvs = 1; }
    if (stage == 2 && quiet >= 0 && (hs || vs)) quiet = -1;
    if (quiet >= 0) {
      if (stage == 2 && (p.r || p.g || p.b)) { quiet = -1; cur = 1; }
      else { if (++quiet > 4 && (hs || vs || p.r || p.g || p.b)) c.fail("hsync=%d vsync=%d colours %d %d %d while disabled", hs, vs, p.r, p.g, p.b); pvs = vs; return; }
    }
    const P* T = &S[cur].T;
    if (!synced && pix > 40 && vs && !pvs) { synced = true; x = 0; y = T->vss; k = 0; }
    phs = hs; pvs = vs;
    if (synced && x == 0 && y == 0 && stage) {       // another frame or none
      Px a = expect(0, 0);
      auto is = [&](Px e) { return p.r == e.r >> (8 - RB) && p.g == e.g >> (8 - GB) && p.b == e.b >> (8 - BB); };
      if (!is(a) && cur == 0) { synced = false; quiet = 0; return; }
    }
    de = synced && x < T->hres && y < T->vres;
#else
    int ct[3] = {0, 0, 0}, n = 0;
    for (int j = 0; j < 3; j++) n += tmds_isctl(l[j], &ct[j]);
    if (pix < 20) return;
    if (n != 0 && n != 3) { c.fail("control and data characters at once: %03x %03x %03x", l[0], l[1], l[2]); return; }
    de = n == 0; hs = ct[0] & 1; vs = ct[0] >> 1;
    if (n == 3 && (ct[1] || ct[2])) c.fail("control bits on lanes 1 and 2");
    if (de) p = Px{tmds_decode(l[2]), tmds_decode(l[1]), tmds_decode(l[0])};
    if (quiet >= 0) {
      if (stage == 2 && (de || hs || vs)) quiet = -1;
      else { if (++quiet > 4 && (de || hs || vs)) c.fail("lanes send %03x %03x %03x while disabled", l[0], l[1], l[2]); return; }
    }
    if (synced && x == 0 && y == 0 && stage && !de && cur == 0) { synced = false; seenvs = false; quiet = 0; return; }     // no other frame
    const P* T = &S[cur].T;
    // judged from the second frame on: the first waits for the memory
    if (!de && vs) seenvs = true;
    if (!synced && de && seenvs && !vs) { synced = true; x = y = k = 0; }
#endif
    if (!synced) return;
    int xde = x < T->hres && y < T->vres, xhs = x >= T->hss && x < T->hse, xvs = y >= T->vss && y < T->vse;
    if (de != xde || (!de && (hs != xhs || vs != xvs))) c.fail("column %d of line %d: de=%d hsync=%d vsync=%d, must be %d %d %d", x, y, de, hs, vs, xde, xhs, xvs);
#ifdef VGA
    if (!de && (p.r || p.g || p.b)) c.fail("column %d of line %d: colours %d %d %d in blanking", x, y, p.r, p.g, p.b);
    if (de && (hs != xhs || vs != xvs)) c.fail("syncs inside the picture");
#endif
    if (de) {
      Px e = expect(k, cur);
#ifdef VGA
      e.r >>= 8 - RB; e.g >>= 8 - GB; e.b >>= 8 - BB;
#endif
      if (p.r != e.r || p.g != e.g || p.b != e.b) c.fail("column %d of line %d shows rgb(%d,%d,%d), must be (%d,%d,%d)", x, y, p.r, p.g, p.b, e.r, e.g, e.b);
      k++; c.cover(0);
    }
    if (x == T->hscan) { x = 0; if (y == T->vscan) { y = 0; k = 0; frames++; c.cover(1); } else y++; } else x++;
#endif
  };
  // software
  auto setup = [&](int s, int n) {
    const P& T = S[n].T;
    i.hres_re = i.hss_re = i.hse_re = i.hscan_re = i.vres_re = i.vss_re = i.vse_re = i.vscan_re = i.len_re = i.base_re = s == 1; i.en_re = s == 2 || s == 3; i.en_r = s == 2;
    i.hres_r = T.hres; i.hss_r = T.hss; i.hse_r = T.hse; i.hscan_r = T.hscan;
    i.vres_r = T.vres; i.vss_r = T.vss; i.vse_r = T.vse; i.vscan_r = T.vscan; i.len_r = S[n].words * (DW / 8); i.base_r = S[n].base * (DW / 8);
  };
  int after = 0, seen = 0;
  const int nf = longrun ? LONGRUN / S[0].frame : 2, na = longrun ? LONGRUN / S[1].frame : 3;
  for (t = 0; after < na && !c.failed && t < (longrun ? 4 * LONGRUN : 40000); t++) {
    bool sys = kk % 4 == 0 ? true : kk % 4 == 1 ? t % 3 == 0 : kk % 4 == 2 ? t % 2 == 0 : t % 5 != 0;
    if (t < 3) sys = true;
    if (frames != seen) { seen = frames; if (cur == 1) after++; }
    since = frames < nf ? 0 : since + 1;
    int op = t == 0 ? 1 : t == 2 ? 2 : 0;
    if (stage == 0 && since == cut) { stage = 1; since = 1; op = 3; sys = true; }
    else if (stage == 1 && since == 9 * S[0].frame) { op = 1; sys = true; synced = false; seenvs = 0; x = y = k = 0; }
    else if (stage == 1 && since == 9 * S[0].frame + 2) { op = 2; sys = true; stage = 2; c.cover(2); cur = 1; }
    setup(op, t > 2);
#ifdef S7
    // while disabled the pixel clock may be set anew, which takes its lock away
    i.locked = !(kk & 1 && stage == 1 && since >= 7 * S[0].frame && since < 7 * S[0].frame + 30);
    if (!i.locked) c.cover(3);
#endif
    // memory: every request is answered after a few pixel clocks, with a pause now and then
    bool late = hic == 1 ? t % 11 == 3 : hic == 2 ? t % 17 < 2 : false;
#ifdef RAW
    late = false;
#endif
    i.cready = !late && q.size() < 12;
    bool rv = !q.empty() && q.front().second + lat <= pix && !(hic == 2 && t % 13 == 5 && !late);
#ifdef RAW
    rv = !q.empty() && q.front().second + lat <= pix;
#endif
    i.rvalid = rv; i.rdata = rv ? mem(q.front().first) : 0;
    auto beat = [&]() {
      if (rv && !o.rready) c.fail("memory data is not accepted");
      if (rv) q.pop_front();
      if (o.cvalid && i.cready) {
        if (o.caddr - S[0].base >= (unsigned)S[0].words && o.caddr - S[1].base >= (unsigned)S[1].words) c.fail("reads word address 0x%x, outside the frame buffer", (unsigned)o.caddr);
        q.push_back({(uint32_t)o.caddr, pix});
      }
    };
#ifdef VGA
#ifdef S7
    i.pixclk = 1; c.comb(r, i, w, o);
    int up = o.padclk;
    i.pixclk = 0; c.comb(r, i, w, o);
    if (up != 1 || o.padclk) c.fail("the clock pin does not carry the pixel clock");
#else
    c.comb(r, i, w, o);
#ifdef SET_WRONG
    c.fail("%s", SET_WRONG);
#endif
    if (!o.ck0 || o.ck1 || !o.ckce || o.ckrs) c.fail("the clock pin does not carry the pixel clock");
#endif
    unsigned l[5] = {(unsigned)!o.hsn, (unsigned)!o.vsn, (unsigned)o.r, (unsigned)o.g, (unsigned)o.b};
    if (!o.psn) c.fail("the DAC is powered down");
    check(l); beat();
    c.edge(sys ? 2 : 1, r, i, w);
#elif defined(S7)
    c.comb(r, i, w, o);
    unsigned l[3] = {(unsigned)o.l0, (unsigned)o.l1, (unsigned)o.l2};
    check(l); beat();
    c.edge(sys ? 2 : 1, r, i, w);
#else
    i.pixclk = 1; c.comb(r, i, w, o);
    In keep = i; bool rv2 = rv;
    c.edge(1, r, i, w);
    i.pixclk = 0; c.comb(r, i, w, o);
    unsigned l[3] = {(unsigned)o.l0, (unsigned)o.l1, (unsigned)o.l2};
    beat();
    c.edge(sys ? 3 : 2, r, i, w);
    c.comb(r, i, w, o);
    l[0] |= o.l0 << 5; l[1] |= o.l1 << 5; l[2] |= o.l2 << 5;
    check(l);
#endif
    pix++;
  }
  if (!c.failed && after < na) c.fail("no picture");
}
