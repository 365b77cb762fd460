// Tap counters of the two delays: software reads values the primitives had, and the current ones soon.
// Edges: 0 sys, 1 pix1p25x, 2 both.
static const uint64_t N_CHUNKS = 64;
static void chunk(uint64_t kk, Ctx& c) {
  Regs r; In i; Wires w; Out o; memset(&w, 0, sizeof w); memset(&o, 0, sizeof o);
  dut_init(r); in_init(i);
  const int ps = 3 + kk % 5, pp = 3 + kk / 5 % 4, ph = kk % ps;
  int hm[3] = {0, 0, 0}, hs[3] = {0, 0, 0};          // the last values, newest first
  for (int n = 0; n < 32 && !c.failed; n++) {
    int a = (int)(n * 13 + kk * 7) & 31, b = (int)(n * 11 + kk * 5 + 16) & 31;
    hm[2] = hm[1]; hm[1] = hm[0]; hm[0] = a; hs[2] = hs[1]; hs[1] = hs[0]; hs[0] = b;
    i.m = a; i.s = b;
    for (int t = 0; t < 1500 && !c.failed; t++) {
      bool s = (t + ph) % ps == 0, p = t % pp == 0;
      if (!s && !p) continue;
      c.comb(r, i, w, o);
      bool okm = false, oks = false;
      for (int q = 0; q < 3; q++) { okm |= o.rm == hm[q]; oks |= o.rs == hs[q]; }
      if (t > 1200) { okm = o.rm == a; oks = o.rs == b; }
      if (!okm || !oks) c.fail("tap counters read %d and %d, they are %d and %d, were %d and %d", (int)o.rm, (int)o.rs, a, b, hm[1], hs[1]);
      c.edge(s && p ? 2 : s ? 0 : 1, r, i, w);
    }
    c.cover(0);
  }
}
