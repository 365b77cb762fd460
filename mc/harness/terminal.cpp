// Terminal: the picture is exactly the rendering of the memory, with the documented timing.
// Edges: 0 sys, 1 vga, 2 both.
static inline uint32_t mix(uint32_t x) { x ^= x >> 16; x *= 0x7feb352d; x ^= x >> 15; x *= 0x846ca68b; x ^= x >> 16; return x; }
static const uint32_t PAL[16] = {0x000000, 0x0000aa, 0x00aa00, 0x00aaaa, 0xaa0000, 0xaa00aa, 0xaa5500, 0xaaaaaa,
                                 0x555555, 0x5555ff, 0x55ff55, 0x55ffff, 0xff5555, 0xff55ff, 0xffff55, 0xffffff};
enum { DEPTH = 8896, FONT = 4800, HT = 800, VT = 521, HB = 144, VB = 31, RECENT = 128 };
static const uint64_t N_CHUNKS = NV;
struct Model {
  uint8_t cur[DEPTH], prev[DEPTH]; int64_t when[DEPTH];
  void init() { memcpy(cur, INITIAL, DEPTH); memcpy(prev, cur, DEPTH); for (auto& w : when) w = -1000000; }
  void write(int a, int v, int64_t t) { prev[a] = cur[a]; cur[a] = v; when[a] = t; }
  int opts(int a, int64_t t, int* v) const { v[0] = cur[a]; if (t - when[a] > RECENT) return 1; v[1] = prev[a]; return 2; }
};
static void chunk(uint64_t kk, Ctx& c) {
  static thread_local Model* mp = nullptr;
  if (!mp) mp = new Model;
  Model& M = *mp; M.init();
  Regs* rp = new Regs; Regs& r = *rp; std::unique_ptr<Regs> own(rp);
  In i; Wires w; Out o; memset(&w, 0, sizeof w); memset(&o, 0, sizeof o);
  dut_init(r); in_init(i);
  const bool tr = c.sample;
  int64_t vt = 0;
  // Wishbone master
  int busy = 0, wa = 0, wv = 0, ww = 0, waited = 0;
  auto bus = [&](bool s, bool v) {            // one edge
    i.cyc = i.stb = busy; i.we = busy && ww; i.adr = busy ? wa : 0; i.dat_w = busy ? wv : 0; i.sel = 1;
    c.comb(r, i, w, o);
    if (s) {
      if (o.ack && !busy) c.fail("acknowledge without a request");
      if (busy && o.ack) {
        if (ww) M.write(wa, wv, vt);
        else {
          int q[2], n = M.opts(wa, vt, q);
          if (o.dat_r != M.cur[wa] && !(n == 2 && o.dat_r == q[1] && M.when[wa] == vt)) c.fail("address 0x%x reads %02x, holds %02x", wa, (unsigned)o.dat_r, M.cur[wa]);
        }
        busy = 0;
      } else if (busy && ++waited > 8) c.fail("no acknowledge");
    }
    c.edge(s && v ? 2 : s ? 0 : 1, r, i, w);
  };
  auto req = [&](int a, int v, int we) { busy = 1; wa = a; wv = v; ww = we; waited = 0; };
  auto put = [&](int a, int v) { req(a, v, 1); while (busy && !c.failed) bus(true, false); };
  const bool live = kk % 3 == 2;
  if (kk) {
    const int n = tr ? 40 : 2400;
    const uint32_t off = (uint32_t)kk * 2400;
    for (int k = 0; k < n && !c.failed; k++) {
      uint32_t cc = (off + k) * 40503u & 0xffff;          // every character with every colour, in some frame
      put(2 * k, cc & 255); put(2 * k + 1, cc >> 8);
    }
    if (kk % 2) for (int k = 0; k < (tr ? 32 : 4096) && !c.failed; k++) put(FONT + k, mix(k * 977 + kk) & 255);
    put(0, kk * 7 & 255); put(4799, kk * 11 & 255); put(FONT, 0x81); put(DEPTH - 1, kk & 255);
  }
  int x = 0, y = 0, frames = 0; bool synced = false; int pv = 0, ph = 0;
  uint32_t row[8];
  uint32_t rng = mix(kk + 12345);
  auto rnd = [&](int n) { rng = rng * 1664525u + 1013904223u; return (int)((uint64_t)(rng >> 8) * n >> 24); };
  const int ratio = kk % 5, total = kk == 1 ? LONG : 2;
  for (vt = 0; frames < total && !c.failed; vt++) {
    if (vt > (total + 2ll) * HT * VT) { c.fail("no picture"); break; }
    if (tr && vt > 30000) return;
    // sys edges between two vga edges, and together with one
    int ns = ratio == 0 ? 1 : ratio == 1 ? 3 : ratio == 2 ? vt % 3 == 0 : ratio == 3 ? (vt % 7 != 0) : 2;
    bool together = ratio == 0 || (ratio == 4 && vt % 2);
    for (int k = 0; k < ns; k++) {
      if (live && !busy && rnd(24) == 0) {
        int cx = (x - HB) / 8 + rnd(6) - 2, cy = (y - VB) / 16 + (rnd(4) == 0 ? rnd(3) - 1 : 0), a;
        if (cx < 0 || cx > 79) cx = rnd(80);
        if (cy < 0 || cy > 29) cy = rnd(30);
        int cell = cy * 80 + cx, q = rnd(4);
        a = q == 0 ? rnd(DEPTH) : q == 1 ? FONT + M.cur[2 * cell] * 16 + ((y - VB) & 15) : 2 * cell + (q & 1);
        if (rnd(4) == 0) req(a, 0, 0);
        else if (vt - M.when[a] > 2 * RECENT) req(a, rnd(256), 1);
      }
      if (k + 1 < ns || !together) bus(true, false);
    }
    bus(together && ns, true);
    c.comb(r, i, w, o);
    int hs = o.hsync, vs = o.vsync; uint32_t px = (uint32_t)o.red << 16 | (uint32_t)o.green << 8 | (uint32_t)o.blue;
    if (!synced && pv && !vs) { synced = true; x = y = 0; }
    pv = vs; ph = hs; (void)ph;
    if (tr && !synced) { x = (int)(vt % HT); y = (int)(vt / HT); }
    if (!synced) continue;
    int xhs = x >= 96, xvs = y >= 2;
    if (hs != xhs || vs != xvs) c.fail("clock %d of line %d: hsync=%d vsync=%d, must be %d %d", x, y, hs, vs, xhs, xvs);
    bool in = x >= HB && x < HB + 640 && y >= VB && y < VB + 480;
    if (!in) { if (px) c.fail("clock %d of line %d: colour %06x outside the picture", x, y, px); }
    else {
      int X = x - HB, Y = y - VB; row[X & 7] = px;
      if ((X & 7) == 7) {
        int cell = Y / 16 * 80 + X / 8, ch[2], co[2], fo[2], nc = M.opts(2 * cell, vt, ch), nk = M.opts(2 * cell + 1, vt, co);
        bool ok = false;
        for (int a = 0; a < nc && !ok; a++) {
          int nf = M.opts(FONT + ch[a] * 16 + Y % 16, vt, fo);
          for (int b = 0; b < nk && !ok; b++) for (int f = 0; f < nf && !ok; f++) {
            ok = true;
            for (int k = 0; k < 8; k++) if (row[k] != PAL[fo[f] >> (7 - k) & 1 ? co[b] & 15 : co[b] >> 4]) { ok = false; break; }
          }
        }
        c.cover(0);
        if (nc * nk > 1) c.cover(2);
        if (!ok) c.fail("row %d column %d, line %d of the character 0x%02x in colours 0x%02x is shown as %06x %06x %06x %06x %06x %06x %06x %06x",
                        Y / 16, X / 8, Y % 16, ch[0], co[0], row[0], row[1], row[2], row[3], row[4], row[5], row[6], row[7]);
      }
    }
    if (++x == HT) { x = 0; if (++y == VT) { y = 0; frames++; c.cover(1); } }
  }
}
