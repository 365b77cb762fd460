// From a frame buffer through VideoOut, three skewed lanes and HDMIIn into another frame buffer.
// Edges: S7 0 tx pix, 1 fast, 2 sys+rx pix, 3 fast+rx, 4 tx+fast, 5 tx+rx, 6 all; S6 (half pixels): 0 pix2x, 1 +tx pix, 2 +rx pix, 3 +both.
#include "tmds.hpp"
#include <algorithm>
#include <deque>
#include <map>
#include <vector>
typedef unsigned __int128 u128;
#define NBY (DW / 8)
#ifdef TXYCC
#define TW 16
#else
#define TW 32
#endif
#ifdef RXYCC
#define PXB 16
#else
#define PXB 32
#endif
#if S7
#define BITS 8
#else
#define BITS 5
#endif
#define PF (DW / PXB)
static inline int64_t clampv(int64_t v, int64_t lo, int64_t hi) { return v < lo ? lo : v > hi ? hi : v; }
static inline uint32_t mix(uint32_t x) { x ^= x >> 16; x *= 0x7feb352d; x ^= x >> 15; x *= 0x846ca68b; x ^= x >> 16; return x; }
struct Px { int r, g, b; };
static inline void conv(const Px& p, int& y, int& cb, int& cr) {
  int64_t r = p.r, g = p.g, b = p.b, yr = ((46 * (r - g) + 15 * (b - g)) >> 8) + g;
  y = clampv(yr + 16, 0, 255); cb = clampv(((141 * (b - yr)) >> 8) + 128, 0, 255); cr = clampv(((166 * (r - yr)) >> 8) + 128, 0, 255);
}
static const uint64_t N_CHUNKS = NV;
static void chunk(uint64_t kk0, Ctx& c) {
  const uint64_t kk = kk0 * STRIDE % 4900 + kk0 * STRIDE / 4900 * 4900;
  // lane offsets in bits, another set for the second picture
  const int pos = kk * 13 % 17;
  int off[2][3] = {{(int)(35 + 34 * (kk / 4900 % 3)) % 70, (int)(kk % 70), (int)(kk / 70 % 70)}, {0, 0, 0}};
  for (int q = 0; q < 3; q++) { off[0][q] += pos; off[1][q] = off[0][(q + kk) % 3] + (kk / 3 % 4) * q; }
  const int lo = std::min({off[1][0], off[1][1], off[1][2]});
  for (int q = 0; q < 3; q++) if (off[1][q] > lo + 69) off[1][q] = lo + 69;
  if (kk % 5 == 4) for (int q = 0; q < 3; q++) off[1][q] = off[0][q];
  struct Set { int W, H, hss, hse, hscan, vss, vse, vscan, n, len; uint32_t base; } S[2];
  for (int s = 0; s < 2; s++) {
    Set& T = S[s]; uint64_t z = kk + s * (1 + kk / 7);
    T.W = 18 + z * 5 % 11; T.H = 2 + z % 3;
    while ((T.W * T.H) % PF || (PXB + TW < 64 && T.W & 1)) T.W++;
    T.hss = T.W + 2 + z / 3 % 4; T.hse = T.hss + 3 + z % 3; T.hscan = T.hse + 6 + z / 2 % 3 * 4;
    T.vss = T.H + 1 + z % 2; T.vse = T.vss + 1 + z / 2 % 2; T.vscan = T.vse + 1 + z / 4 % 2;
    T.n = T.W * T.H; T.len = T.n * (TW / 8); T.base = 0x100 + z * 37 % 64 * 8 + s * 0x5230;
  }
  const uint32_t seed = kk * 1000003 + 77;
  auto mem = [&](uint32_t a) -> uint32_t {
    uint32_t h = mix(a + seed);
    if (h >> 30 == 0) h = (h & 1 ? 0xff : 0) | (h & 2 ? 0xff00 : 0) | (h & 4 ? 0xff0000 : 0);
    return h & (TW == 16 ? 0xffff : 0xffffff);
  };
  auto sent = [&](int s, int k) -> Px {
    uint32_t w = mem(S[s].base + k);
#ifdef TXYCC
    uint32_t e = mem(S[s].base + (k & ~1)), q = mem(S[s].base + (k | 1));
    int64_t y = (int)(w & 255) - 16, pb = (int)(e >> 8 & 255) - 128, pr = (int)(q >> 8 & 255) - 128;
    const double f = 64, ca = 0.1819, cb = 0.0618, cc = 0.5512, cd = 0.6495;
    const int64_t A = (int64_t)(1 / cd * f), B = (int64_t)(-cb / (cc * (1 - ca - cb)) * f), C = (int64_t)(-ca / (cd * (1 - ca - cb)) * f), D = (int64_t)(1 / cc * f);
    return Px{(int)clampv(y + ((pr * A) >> 6), 0, 255), (int)clampv(y + ((pb * B) >> 6) + ((pr * C) >> 6), 0, 255), (int)clampv(y + ((pb * D) >> 6), 0, 255)};
#else
    return Px{(int)(w & 255), (int)(w >> 8 & 255), (int)(w >> 16 & 255)};
#endif
  };
  auto word = [&](int s, int wd, u128& m) -> u128 {
    u128 v = 0; m = 0;
    for (int q = 0; q < PF; q++) {
      int n = wd * PF + q; Px p = sent(s, n); u128 e, mm;
#ifdef RXYCC
      int Y, A, B, Y2, A2, B2; conv(p, Y, A, B); conv(sent(s, (n % S[s].W ^ 1) + n / S[s].W * S[s].W), Y2, A2, B2);
      e = Y | ((n & 1 ? (B + B2) >> 1 : (A + A2) >> 1) << 8); mm = 0xffff;
#else
      e = p.b | p.g << 8 | p.r << 16; mm = 0xffffff;
#endif
      v |= e << (PXB * (PF - 1 - q)); m |= mm << (PXB * (PF - 1 - q));
    }
    return v;
  };
  Regs r; In i; Wires w; Out o; memset(&w, 0, sizeof w); memset(&o, 0, sizeof o);
  dut_init(r); in_init(i);
  i.lock0 = i.lock1 = 1;
  std::vector<uint8_t> ln; ln.reserve(1 << 18);        // transmitted bits of the three lanes
  long bitn = 0; int cur = 0;
  auto feed = [&]() {
    unsigned q[3] = {0, 0, 0};
    for (int b = 0; b < BITS; b++, bitn++) for (int l = 0; l < 3; l++) {
      long x = bitn - off[cur][l] - 20;
      if (x >= (long)ln.size()) { c.fail("bit %ld not yet sent", x); return; }
      if (x >= 0) q[l] |= (ln[x] >> l & 1) << b;
    }
    i.q0 = q[0]; i.q1 = q[1]; i.q2 = q[2];
  };
  std::deque<std::pair<uint32_t, int>> rq; std::deque<uint32_t> wq; std::map<uint32_t, u128> got;
  const int lat = 1 + kk % 5; uint32_t rs = seed | 1;
  int hold = 0, rhold = 0, rmark = 5, pix = 0, nde = 0, idle = 0, stage = 0, at = 0, ns = 0, wait = 0; unsigned half = 0;
  uint32_t SB[2] = {0x1000, 0x4000}; int nslots = 2;
  const int fph = kk * 3 % 8, pph = kk * 7 % 10, sph = kk / 2 % 2;
  const int loss = kk / 2 % 4, losta = 5 + (int)(kk * 29 % ((S[0].hscan + 1) * (S[0].vscan + 1))); bool relocked = false; int reset = 0;
  auto setup = [&](int n) {
    const Set& T = S[n];
    i.hres_r = T.W; i.hss_r = T.hss; i.hse_r = T.hse; i.hscan_r = T.hscan; i.vres_r = T.H; i.vss_r = T.vss; i.vse_r = T.vse; i.vscan_r = T.vscan;
    i.len_r = T.len; i.base_r = T.base * (TW / 8);
  };
  auto set_re = [&](int v) { i.hres_re = i.hss_re = i.hse_re = i.hscan_re = i.vres_re = i.vss_re = i.vse_re = i.vscan_re = i.len_re = i.base_re = v; };
  auto frame = [&](int n) { return (S[n].hscan + 1) * (S[n].vscan + 1); };
  for (long t = 0; stage < 9 && !c.failed; t++) {
#if S7
    const bool tp = t % 10 == 0, fp = (t + fph) % 8 == 0, sp = (t + pph) % 10 == 0;
    if (!tp && !fp && !sp) continue;
#else
    const bool tp = t % 2 == 0, fp = true, sp = (t + sph) % 2 == 0;
    i.pixclk = !tp;
#endif
    rs = rs * 1664525 + 1013904223;
    // software, in sys
    set_re(0); i.en_re = i.fs_re = i.ad0_re = i.ad1_re = i.st0_re = i.st1_re = 0;
    if (sp) {
      ns++;
      const int d = ns - at;
      switch (stage) {
        case 0:          // output on
        case 5:
          if (d == 1) { setup(cur); set_re(1); }
          if (d == 3) { i.en_re = 1; i.en_r = 1; }
          if (d > 3 && nde >= (kk % 600 == 2 ? 140 : 5) * S[cur].n && idle > 60) { stage++; at = ns; }
          if (d > (kk % 600 == 2 ? 180 : 12) * frame(cur)) c.fail("no picture is sent");
          break;
        case 1:          // in vertical blanking: slots
        case 6:
          if (d == 1) { i.fs_re = 1; i.fs_r = S[cur].n / PF * NBY; }
          if (d == 2) { i.ad0_re = 1; i.ad0_r = SB[0] * NBY; }
          if (d == 3) { i.ad1_re = 1; i.ad1_r = SB[1] * NBY; }
          if (d == 4) { i.st0_re = 1; i.st0_r = 1; }
          if (d == 5 && nslots == 2) { i.st1_re = 1; i.st1_r = 1; }
          if (d == 6) { stage++; at = ns; }
          break;
        case 3:          // output off, other picture
          if (loss & 1 && !relocked) {      // the receiver's clock is lost in mid-picture, with a slot loaded
            if (d == 1) { i.ad1_re = 1; i.ad1_r = SB[1] * NBY; }
            if (d == 2) { i.st1_re = 1; i.st1_r = 1; for (int z = 0; z < S[0].n / PF; z++) got.erase(SB[1] + z); }
            if (d == losta) i.lock1 = 0;
            if (d == losta + 40) { i.lock1 = 1; c.cover(3); }
            if (d > losta + 40 && o.st1 == 2) { relocked = true; at = ns; }
            if (d > losta + 40 + 8 * frame(0)) c.fail("no slot is filled any more after the clock was lost");
            break;
          }
          if (d == 1) { i.en_re = 1; i.en_r = 0; wait = 0; }
          if (loss & 2 && d > 1 && idle > 2 * frame(0) && !reset) reset = ns;     // the transmitter's clock is set anew
          i.lock0 = !(reset && ns < reset + 60);
          if (loss & 2 && (!reset || ns < reset + 80)) break;
          if (d > 1 && idle > 2 * frame(0)) { stage = 5; at = ns; cur = 1; nde = hold = 0; got.clear(); rmark = 3; nslots = 1; SB[0] = 0x2000; SB[1] = 0x7000; }
          if (d > 30 * frame(0)) c.fail("the output does not stop");
          break;
      }
    }
    if (tp) {
      // a full buffer bridges a pause of the memory
      if (kk % 4 == 1 && idle == 61 && nde) hold = nde + 30;
      i.cready = (rs >> 20) % 9 != 0 && rq.size() < 12 && nde >= hold;
      i.rvalid = !rq.empty() && rq.front().second + lat <= pix; i.rdata = i.rvalid ? mem(rq.front().first) : 0;
    }
    if (sp) { i.wcready = (rs >> 25 & 3) != 0; i.wready = (rs >> 28 & 3) != 0 && !wq.empty();
      if (rhold) { rhold--; i.wcready = i.wready = 0; }
      else if (kk % 3 == 1 && stage % 5 == 2 && (int)got.size() == rmark) { rmark += 48; rhold = 40 * PF; i.wcready = i.wready = 0; } }
    c.comb(r, i, w, o);
    // transmitter
    const unsigned l[3] = {(unsigned)o.l0, (unsigned)o.l1, (unsigned)o.l2};
#if S7
    const bool all = tp;
    const unsigned l0 = l[0];
    if (tp)
#else
    const bool all = !tp;         // the second half of a character is there
    const unsigned l0 = half | l[0] << 5;
    half = l[0];
#endif
      for (int b = 0; b < (S7 ? 10 : 5); b++) ln.push_back((l[0] >> b & 1) | (l[1] >> b & 1) << 1 | (l[2] >> b & 1) << 2);
    if (all) { int ct; if (pix > 20 && !tmds_isctl(l0, &ct)) { nde++; idle = 0; } else idle++; }
    if (tp) {
      if (i.rvalid && !o.rready) c.fail("memory data is not accepted");
      if (i.rvalid) rq.pop_front();
      if (o.cvalid && i.cready) {
        if (o.caddr - S[0].base >= (unsigned)S[0].n && o.caddr - S[1].base >= (unsigned)S[1].n) c.fail("reads word address 0x%x, outside the frame buffer", (unsigned)o.caddr);
        rq.push_back({(uint32_t)o.caddr, pix});
      }
      pix++;
    }
    // receiver
    if (sp) {
      const Set& T = S[cur]; const int WPF = T.n / PF;
      if (o.ovf) c.fail("overflow reported");
      if (o.wcvalid && i.wcready) { if (!o.wcwe) c.fail("a read command"); wq.push_back(o.wcaddr); }
      if (o.wvalid && i.wready) {
        uint32_t ad = wq.front(); wq.pop_front();
        if (ad - SB[0] >= (unsigned)WPF && ad - SB[1] >= (unsigned)WPF) c.fail("write to address %x outside of the slots", ad);
        if (got.count(ad)) c.fail("address %x written twice", ad);
        if (o.wwe != (NBY < 32 ? (1u << NBY) - 1 : ~0u)) c.fail("partial write");
        got[ad] = o.wdata;
      }
      if (stage == 2 || stage == 7) {
        if (o.st0 == 2 && (nslots == 1 || o.st1 == 2)) {
          if (got.size() != (size_t)(WPF * nslots)) { c.fail("%d words written, %d frames of %d expected", (int)got.size(), nslots, WPF); break; }
          for (int z = 0; z < nslots && !c.failed; z++) for (int k = 0; k < WPF && !c.failed; k++) {
            u128 m, e = word(cur, k, m), g = got.count(SB[z] + k) ? got[SB[z] + k] : ~e;
            if ((g ^ e) & m) c.fail("word %d of slot %d holds %016llx%016llx, the picture sent has %016llx%016llx there (%dx%d, lane offsets %d %d %d bits)", k, z,
                                   (unsigned long long)(g >> 64), (unsigned long long)g, (unsigned long long)(e >> 64), (unsigned long long)e, T.W, T.H, off[cur][0], off[cur][1], off[cur][2]);
          }
          if (o.hres != T.W || o.vres != T.H || !o.sync || o.cs != 7)
            c.fail("registers read %dx%d, synced %d, char_synced %d for a %dx%d picture", (int)o.hres, (int)o.vres, (int)o.sync, (int)o.cs, T.W, T.H);
          c.cover(cur);
          stage = stage == 2 ? 3 : 9; at = ns;
        } else if (ns - at > 4 * frame(cur)) c.fail("the slots are not filled: states %d and %d, %d words written (lane offsets %d %d %d bits)", (int)o.st0, (int)o.st1, (int)got.size(), off[cur][0], off[cur][1], off[cur][2]);
      }
    }
    if (c.failed || stage == 9) break;
#if S7
    c.edge(tp ? fp ? sp ? 6 : 4 : sp ? 5 : 0 : fp ? sp ? 3 : 1 : 2, r, i, w);
#else
    c.edge(tp + 2 * sp, r, i, w);
#endif
    if (fp) feed();
  }
  c.cover(2);
}
