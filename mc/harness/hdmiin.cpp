// HDMI receiver from the deserialisers' bits to the pixels: three TMDS lanes with any bit offset each.
// Edges: 0 fast, 1 sys+pix, 2 all, 3 sys.
#include "tmds.hpp"
#include <vector>
#if S7
#define BITS 8
#define FAST 4
#define SLOW 5
#else
#define BITS 5
#define FAST 1
#define SLOW 2
#endif
#ifdef DRAM
#include <map>
#endif
#ifndef WIDTH
#define WIDTH (18 + (int)(kk * 5) % 9)
#endif
#ifndef INVM
#define INVM 0
#endif
static const uint16_t TERC4[16] = {0x29c, 0x263, 0x2e4, 0x2e2, 0x171, 0x11e, 0x18e, 0x13c, 0x2cc, 0x139, 0x19c, 0x2c6, 0x28e, 0x271, 0x163, 0x2c3};
static const uint16_t VGB[3] = {0x2cc, 0x133, 0x2cc};
struct Cyc { uint8_t de, hs, vs, r, g, b; };
#ifdef DRAM
#include <deque>
typedef unsigned __int128 u128;
static inline int64_t clampv(int64_t v, int64_t lo, int64_t hi) { return v < lo ? lo : v > hi ? hi : v; }
static inline void conv(const Cyc& p, int& y, int& cb, int& cr) {
  int64_t r = p.r, g = p.g, b = p.b, yr = ((46 * (r - g) + 15 * (b - g)) >> 8) + g;
  y = clampv(yr + 16, 0, 255); cb = clampv(((141 * (b - yr)) >> 8) + 128, 0, 255); cr = clampv(((166 * (r - yr)) >> 8) + 128, 0, 255);
}
#endif
struct Tx {
  std::vector<Cyc> e; std::vector<uint16_t> ch[3];
  int cnt[3] = {0, 0, 0}, pol;
  uint64_t s;
  Tx(int p, uint64_t seed) : pol(p), s(seed * 2654435761u + 12345) {}
  unsigned rnd() { s = s * 6364136223846793005ull + 1442695040888963407ull; return (unsigned)(s >> 33); }
  void put(unsigned a, unsigned b, unsigned c, Cyc x) { ch[0].push_back(a); ch[1].push_back(b); ch[2].push_back(c); e.push_back(x); }
  unsigned c0(int hs, int vs) { return (hs | vs << 1) ^ pol; }
  void ctl(int n, int hs, int vs, int c1 = 0, int c2 = 0) {
    cnt[0] = cnt[1] = cnt[2] = 0;
    while (n-- > 0) put(TMDS_CTL[c0(hs, vs)], TMDS_CTL[c1], TMDS_CTL[c2], Cyc{0, (uint8_t)hs, (uint8_t)vs, 0, 0, 0});
  }
  void island(int hs, int vs) {
    ctl(8, hs, vs, 1, 1);
    Cyc x{0, (uint8_t)hs, (uint8_t)vs, 0, 0, 0};
    for (int k = 0; k < 2; k++) put(TERC4[12 | c0(hs, vs)], 0x133, 0x133, x);
    for (int k = 0; k < 32; k++) put(TERC4[(rnd() & 4) | (k ? 8 : 0) | c0(hs, vs)], TERC4[rnd() & 15], TERC4[rnd() & 15], x);
    for (int k = 0; k < 2; k++) put(TERC4[12 | c0(hs, vs)], 0x133, 0x133, x);
    ctl(4, hs, vs);
  }
  void line(int W, int hfp, int hsw, int hbp, int act, int vs, bool isl) {
    // active part first, as the syncs are normalised at its end
    if (act) for (int k = 0; k < W; k++) {
      Cyc x{1, 0, 0, (uint8_t)rnd(), (uint8_t)rnd(), (uint8_t)rnd()};
      put(tmds_encode(x.b, cnt[0]), tmds_encode(x.g, cnt[1]), tmds_encode(x.r, cnt[2]), x);
    } else ctl(W, 0, vs);
    ctl(hfp, 0, vs); ctl(hsw, 1, vs);
    if (isl) island(0, vs);
    ctl(hbp, 0, vs);
  }
  void preamble(int vs) {
    ctl(8, 0, vs, 1, 0);
    cnt[0] = cnt[1] = cnt[2] = 0;
    for (int k = 0; k < 2; k++) put(VGB[0], VGB[1], VGB[2], Cyc{0, 0, (uint8_t)vs, 0, 0, 0});
  }
  void frame(int W, int H, int hb, int islands) {
    const int bp = hb & 1 ? 12 : 7;
    for (int y = 0; y < H; y++) { if (HDMI) preamble(0); line(W, 2 + hb, 3, bp, 1, 0, HDMI && (islands >> y & 1)); }
    line(W, 2 + hb, 3, bp, 0, 0, HDMI && islands & 8); line(W, 2 + hb, 3, bp, 0, 1, false); line(W, 2, 3, bp, 0, 1, HDMI && islands & 16); line(W, 2, 3, bp, 0, 0, false);
  }
};
static const uint64_t N_CHUNKS = NV;
static void chunk(uint64_t kk, Ctx& c) {
  // lane offsets in bits: every bit position, skews below the depth of the alignment buffers
  int off[3] = {(int)(35 + 34 * (kk / 4900 % 3)) % 70, (int)(kk % 70), (int)(kk / 70 % 70)}, pos = (int)(kk * 13 % 17);
  for (int q = 0; q < 3; q++) off[q] += pos;
  int pol = (int)(kk * 7 + kk / 10) % 4, W = WIDTH, H = 2 + kk % 3, hb = (kk / 3) % 4, isl = (kk * 3) % 32;
  int ph = (kk * 3) % (FAST * SLOW), slip = kk % 3;
  Tx tx(pol, kk);
  const int NF1 = kk % 600 == 2 ? 140 : 7;             // some streams run for long
  for (int f = 0; f < NF1; f++) tx.frame(W, H, hb, isl);
  size_t half = tx.e.size();
  for (int f = 0; f < 6; f++) tx.frame(W + 1, H + 1, hb, isl ^ 5);
  size_t N = tx.e.size();
  Regs r; In i; Wires w; Out o;
  memset(&w, 0, sizeof w); memset(&o, 0, sizeof o);
  dut_init(r); in_init(i);
  std::vector<Out> got; got.reserve(N + 64);
  size_t bitn = 0; int nov = 0; const bool mute = kk % 7 == 3;
  auto ctl = [](unsigned w) { return w == TMDS_CTL[0] || w == TMDS_CTL[1] || w == TMDS_CTL[2] || w == TMDS_CTL[3]; };
  auto feed = [&]() {
    unsigned q[3] = {0, 0, 0};
    for (int b = 0; b < BITS; b++, bitn++) for (int l = 0; l < 3; l++) {
      long x = (long)bitn - off[l] + 90;
      // half-way one lane slips by a few bits
      if (bitn >= half * 10 && slip && l == (int)(kk % 2) + 1) x -= slip;
      unsigned v = 0;
      if (mute && l == (int)(kk % 3) && bitn < half / NF1 * 20) x = -1;     // one lane is silent for two frames
      if (mute && kk % 2 && l == (int)(kk % 3) && bitn < half / NF1 * 20) {
        // ... or carries single control characters only, which do not synchronise it
        x = (long)bitn - off[l] + 90;
        size_t n = x / 10;
        bool ct = x >= 0 && n < N && ctl(tx.ch[l][n]), first = ct && (n == 0 || !ctl(tx.ch[l][n - 1]));
        v = x >= 0 && n < N ? (ct && !first ? 0x1f0 : tx.ch[l][n]) >> (x % 10) & 1 : 0;
        x = -1;
      }
      if (x >= 0 && x < (long)N * 10) v = tx.ch[l][x / 10] >> (x % 10) & 1;
      q[l] |= (v ^ (INVM >> l & 1)) << b;
    }
    i.q0 = q[0]; i.q1 = q[1]; i.q2 = q[2];
  };
  feed();
  i.lock = 1;
#if SPLIT
  i.lock2 = 1;
#endif
#ifdef DRAM
  std::deque<uint32_t> cq; std::map<uint32_t, u128> mem; int sw = 0, swf = 0; bool ch = false, wh = false; uint32_t ca = 0; int caps = 0;
  const uint32_t BASE[2] = {0x1000, 0x4000}; const int WPF = (W * H * PXB) / DW, NBY = DW / 8;
#endif
  for (int t = 0; got.size() < N - 30 && !c.failed; t++) {
    bool f = t % FAST == 0, p = (t + ph) % SLOW == 0;
    if (!f && !p) continue;
    // the clock is lost for a while between the halves in some streams
    i.lock = !(kk % 5 == 4 && got.size() >= half && got.size() < half + 9);
#if SPLIT
    i.lock2 = i.lock;
#endif
#ifdef DRAM
    // software: frame size, then slots 0 and 1 once the third frame has passed; then slot 0 again
    i.fs_re = i.st0_re = i.st1_re = i.ad0_re = i.ad1_re = 0;
    size_t fl = half / NF1, at = (mute ? 4 : 3) * fl - 30;
    if (p && got.size() < half) {
      size_t n = got.size();
      if (n == 40) { i.fs_re = 1; i.fs_r = WPF * NBY; }
      if (n == at) { i.ad0_re = 1; i.ad0_r = BASE[0] * NBY; }
      if (n == at + 1) { i.ad1_re = 1; i.ad1_r = BASE[1] * NBY; }
      if (n == at + 2) { i.st0_re = 1; i.st0_r = 1; }
      if (n == at + 3) { i.st1_re = 1; i.st1_r = 1; }
    }
    tx.s = tx.s * 6364136223846793005ull + 1442695040888963407ull;
    i.cready = (tx.s >> 40 & 3) != 0; i.wready = (tx.s >> 43 & 3) != 0 && !cq.empty();
#endif
    c.comb(r, i, w, o);
    if (p) got.push_back(o);
    if (p) { nov = o.valid ? 0 : nov + 1; if (nov > 30 && (o.hres || o.vres)) { c.fail("the resolution reads %dx%d without a valid input", (int)o.hres, (int)o.vres); return; } if (nov > 30 && got.size() > half) c.cover(4); }
    if (p && mute && got.size() < half / NF1 * 2 && (o.valid || o.cs >> (kk % 3) & 1 || o.sync)) {
      c.fail("valid %d, synced %d, char_synced %d although lane %d is not synchronised", (int)o.valid, (int)o.sync, (int)o.cs, (int)(kk % 3)); return; }
#ifdef DRAM
    if (p) {                                            // the memory side runs in sys
      if (o.ovf) { c.fail("overflow reported"); return; }
      if (o.cvalid && i.cready) { if (!o.cwe) { c.fail("a read command"); return; } cq.push_back(o.caddr); }
      if (o.wvalid && i.wready) {
        uint32_t ad = cq.front(); cq.pop_front();
        int s0 = ad >= BASE[0] && ad < BASE[0] + WPF, s1 = ad >= BASE[1] && ad < BASE[1] + WPF;
        if (!s0 && !s1) { c.fail("write to address %x outside of the slots", ad); return; }
        if (mem.count(ad)) { c.fail("address %x written twice", ad); return; }
        if (o.wwe != (NBY < 32 ? (1u << NBY) - 1 : ~0u)) { c.fail("partial write"); return; }
        mem[ad] = o.wdata;
      }
    }
#endif
#ifdef ASYNC     // a system clock of its own, faster or slower than the pixel clock, in any phase
    for (int q = (t * (int)(3 + kk % 4) / 4 + (int)kk) % (kk & 4 ? 2 : 3); q > 0; q--) { c.edge(3, r, i, w); Out z; memset(&z, 0, sizeof z); c.comb(r, i, w, z); }
#endif
    c.edge(f && p ? 2 : f ? 0 : 1, r, i, w);
    if (f) feed();
  }
  if (c.failed) return;
#ifdef DRAM
  {
    size_t fl = half / NF1;
    if ((int)mem.size() != 2 * WPF) { c.fail("%d words written, two frames of %d expected", (int)mem.size(), WPF); return; }
    int at[2] = {-1, -1};
    for (int z = 0; z < 2; z++) {
      int bestm = -1;
      for (int f = 1; f < 7 && at[z] < 0; f++) {
        std::vector<Cyc> px; for (size_t t = f * fl; t < (f + 1) * fl; t++) if (tx.e[t].de) px.push_back(tx.e[t]);
        bool ok = true; int n = 0;
        for (int wd = 0; wd < WPF && ok; wd++) {
          u128 v = 0, mk = 0;
          for (int q = 0; q < DW / PXB; q++, n++) {
            const Cyc& P = px[n]; u128 e, m;
#if PXB == 16
            int Y, A, B, Y2, A2, B2; conv(P, Y, A, B); conv(px[(n % W ^ 1) + n / W * W], Y2, A2, B2);
            e = Y | ((n & 1 ? (B + B2) >> 1 : (A + A2) >> 1) << 8); m = 0xffff;
#else
            e = P.b | P.g << 8 | P.r << 16; m = 0xffffff;
#endif
            v |= e << (PXB * (DW / PXB - 1 - q)); mk |= m << (PXB * (DW / PXB - 1 - q));
          }
          if ((v ^ mem[BASE[z] + wd]) & mk) { ok = false; bestm = std::max(bestm, wd); }
        }
        if (ok) at[z] = f;
      }
      if (at[z] < 0) { c.fail("slot %d holds none of the transmitted frames (at most the first %d of %d words agree)", z, bestm, WPF); return; }
    }
    if (at[1] != at[0] + 1) { c.fail("the slots hold frames %d and %d", at[0], at[1]); return; }
    if (o.st0 != 2 || o.st1 != 2) { c.fail("slot states read %d and %d", (int)o.st0, (int)o.st1); return; }
    c.cover(3);
  }
#endif
  // each half after its first three frames
  size_t flen1 = half / NF1, flen2 = (N - half) / 6;
  for (int h = 0; h < 2; h++) {
    size_t a = h ? half + 3 * flen2 : (mute ? 4 : 3) * flen1, b = h ? got.size() : half;
    int best = -1; size_t bestn = 0; long bestlag = 0;
    for (long lag = -24; lag < 60; lag++) {
      size_t t = a;
      for (; t < b; t++) {
        long y = (long)t - lag; if (y < 0 || y >= (long)N) break;
        const Cyc& e = tx.e[y]; const Out& g = got[t];
        if (!g.valid || g.de != e.de || g.hsync != e.hs || g.vsync != e.vs) break;
        if (e.de && (g.r != e.r || g.g != e.g || g.b != e.b)) break;
        if (t > a + 20 && g.cs != 7) break;
      }
      if (t - a > bestn) { bestn = t - a; bestlag = lag; }
      if (t == b) { best = 1; break; }
    }
    if (best < 0) {
      size_t t = a + bestn; long y = (long)t - bestlag; const Out& g = got[std::min(t, got.size() - 1)]; const Cyc& e = tx.e[std::max(0l, std::min(y, (long)N - 1))];
      c.fail("received de=%d hs=%d vs=%d rgb=%02x%02x%02x valid=%d char_synced=%d, sent de=%d hs=%d vs=%d rgb=%02x%02x%02x (lane offsets %d %d %d bits, polarity %d, %dx%d, part %d, after %d good cycles)",
             (int)g.de, (int)g.hsync, (int)g.vsync, (int)g.r, (int)g.g, (int)g.b, (int)g.valid, (int)g.cs, e.de, e.hs, e.vs, e.r, e.g, e.b, off[0], off[1], off[2], pol, W + h, H + h, h, (int)bestn);
      return;
    }
    // the raw characters for pass-through: the same cycles at a constant distance
    bool rawok = false;
    for (long l2 = bestlag - 4; l2 <= bestlag + 4 && !rawok; l2++) {
      rawok = true;
      for (size_t t = a; t < b && rawok; t++) { long y = (long)t - l2; if (y < 0 || y >= (long)N || got[t].c0 != tx.ch[0][y] || got[t].c1 != tx.ch[1][y] || got[t].c2 != tx.ch[2][y]) rawok = false; }
    }
    if (!rawok) { c.fail("the raw characters passed on are not the ones sent (part %d)", h); return; }
    const Out& g = got[b - 1 - (h ? 0 : 8)];
    if (g.hres != W + h || g.vres != H + h || !g.sync || g.cs != 7 || !g.locked) {
      c.fail("registers read %dx%d, synced %d, char_synced %d, locked %d for a %dx%d stream", (int)g.hres, (int)g.vres, (int)g.sync, (int)g.cs, (int)g.locked, W + h, H + h); return; }
    c.cover(1 + h);
  }
  c.cover(0);
}
