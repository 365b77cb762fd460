// HDMI data-enable recovery: every sequence of periods an HDMI 1.3 source may send
// (control, video preamble, video guard band, pixels, island preamble, guard bands, island data).
#include "tmds.hpp"
static const uint16_t TERC4[16] = {0x29C, 0x263, 0x2E4, 0x2E2, 0x171, 0x11E, 0x18E, 0x13C, 0x2CC, 0x139, 0x19C, 0x2C6, 0x28E, 0x271, 0x163, 0x2C3};
enum { CTL, PREV, GBV, VID, PRED, GBD, ISL, GBT };
struct Mon { uint8_t st, n, hist, hgb, hpk; uint8_t dvi, warm, noisy; };
static inline void put(In& i, int ch, unsigned w) {
  int ct; bool ctl = tmds_isctl(w, &ct);
  unsigned d = tmds_decode(w);
  if (ch == 0) { i.raw0 = w; i.de0 = !ctl; i.c0 = ctl ? ct : 0; i.d0 = d; }
  if (ch == 1) { i.raw1 = w; i.de1 = !ctl; i.c1 = ctl ? ct : 0; i.d1 = d; }
  if (ch == 2) { i.raw2 = w; i.de2 = !ctl; i.c2 = ctl ? ct : 0; i.d2 = d; }
}
static inline void emit(Regs& r, Mon& m, Ctx& c, unsigned w0, unsigned w1, unsigned w2, int video, int isl) {  // isl: 1 guard band of an island, 2 packet character
  In i; Wires w; Out o;
  in_init(i); memset(&w, 0, sizeof w); memset(&o, 0, sizeof o);
  i.valid = 1; i.dvi = DVI;
  put(i, 0, w0); put(i, 1, w1); put(i, 2, w2);
  m.hist = (m.hist << 1 | video) & 0xf;
  m.hgb = (m.hgb << 1 | (isl == 1)) & 0xf;
  m.hpk = (m.hpk << 1 | (isl == 2)) & 0xf;
  c.comb(r, i, w, o);
  // data enable accompanies the pixel data, which the receiver delays by one clock
  int e = (m.hist >> 1) & 1;
  if (m.warm >= 8) {
    if (o.de != e) {
      c.fail(e ? "data enable is low on a pixel" : "data enable is high on a character that is not a pixel");
      return;
    }
    // the flags of the period follow one clock later
    int v = (m.hist >> 2) & 1, g = (m.hgb >> 2) & 1, p = (m.hpk >> 2) & 1;
    if (o.terc4 != (g | p)) { c.fail(g | p ? "a character of a data island is not flagged as TERC4" : "a character outside data islands is flagged as TERC4"); return; }
    if (o.ed != p) { c.fail(p ? "a packet character is not flagged as encrypted data" : "a character that is no packet character is flagged as encrypted data"); return; }
    if (o.ev != v) { c.fail(v ? "a pixel is not flagged as encrypted video" : "a character that is no pixel is flagged as encrypted video"); return; }
    if (g) c.cover(4);
    if (p) c.cover(5);
    if (v) c.cover(6);
    if (e) c.cover(0); else c.cover(1);
  } else m.warm++;
  c.edge(0, r, i, w);
}
static void start(Regs& r, Mon& m, Ctx& c) {
  dut_init(r); memset(&m, 0, sizeof m);
  for (int k = 0; k < 12; k++) emit(r, m, c, TMDS_CTL[k & 3], TMDS_CTL[0], TMDS_CTL[0], 0, 0);
}
static void step(Regs& r, Mon& m, Ctx& c) {
  // next state of the source
  int st = m.st, n = m.n;
  auto go = [&](int s) { st = s; n = 0; };
#ifdef LOOSE
  // periods in any order: preambles given up, exchanged, short or missing, islands that end without their
  // guard band, guard bands of any length
  auto pick = [&](int q) { int k = c.choose(q + 1); return k; };
  switch (st) {
    case CTL: { int k = pick(3); if (k == 1) go(PREV); else if (k == 2) go(PRED); else if (k == 3 && n >= 1) go(GBV); break; }
    case PREV: if (n >= 2) { int k = pick(3); if (k == 1) go(GBV); else if (k == 2) go(CTL); else if (k == 3) go(PRED); } break;
    case GBV: if (n >= 2) { int k = pick(1); if (k || n == 4) go(VID); } break;
    case VID: if (n >= VMIN) { int k = pick(1); if (k) go(CTL); } break;
    case PRED: if (n >= 2) { int k = pick(4); if (k == 1 && !m.noisy) go(GBD); else if (k == 2) go(CTL); else if (k == 3) go(PREV); else if (k == 4) go(GBV); } break;
    case GBD: if (n >= 2) { int k = pick(1); if (k || n == 4) go(ISL); } break;
    case ISL: { int k = pick(3); if (k == 1) go(GBT); else if (k == 2) go(CTL); else if (k == 3) go(GBV); break; }
    case GBT: if (n >= 2) { int k = pick(2); if (k == 1 || n == 4) go(CTL); else if (k == 2) go(GBV); } break;
  }
  if (st == CTL && n == 0) c.cover(7);
  if (st == GBV && n == 0 && m.st != PREV) c.cover(8);
#else
  switch (st) {
    case CTL: if (n >= 4) { int k = c.choose(3); if (k == 1) go(PREV); else if (k == 2) go(PRED); } break;
    case PREV: if (n >= 8) go(GBV); break;
    case GBV: if (n >= 2) go(VID); break;
    case VID: if (n >= VMIN) { if (c.choose(2)) go(CTL); } break;
    case PRED: if (n >= 8) go(GBD); break;
    case GBD: if (n >= 2) go(ISL); break;
    case ISL: if (n >= 4) { if (c.choose(2)) go(GBT); } break;
    case GBT: if (n >= 2) go(CTL); break;
  }
#endif
  if (n < 8) n++;
  m.st = st; m.n = n;
  // horizontal and vertical sync on channel 0 are free during control periods
  int hv = (st == CTL || st == PREV || st == PRED) ? c.choose(4) : 0;
  unsigned a = TMDS_CTL[hv], n1 = TMDS_CTL[st != CTL], n2 = TMDS_CTL[st == PRED];
#ifdef LOOSE
  // one or two channels may be disturbed, turned into a pixel or into a character of a guard band
  if (m.noisy) m.noisy--;
  if ((st == CTL || (st != CTL && n > 1)) && (st == CTL || st == PREV || st == PRED) && !hv) {
    static const uint16_t N[3][4] = {{0, 0x100, 0x2CC, 0x28E}, {0, 0x100, 0x133, 0x29C}, {0, 0x100, 0x2CC, 0x133}};
    int q = c.choose(4), k = c.choose(4), l = q < 3 ? c.choose(4) : 0, p = (q + 1) % 3;
    unsigned* u[3] = {&a, &n1, &n2};
    if (q == 3) k = 0;
    if (l && !k) l = 0;
    if (q < 3 && !(q == 1 && k == 2 && l == 3 && (st != CTL || n < 4 || m.noisy))) {    // an island's guard band counts after its preamble only
      if (k) { *u[q] = N[q][k]; m.noisy = 2; c.cover(9); }
      if (l) *u[p] = N[p][l];
    }
  }
#endif
  switch (st) {
    case CTL: emit(r, m, c, a, n1, n2, 0, 0); break;
    case PREV: c.cover(2); emit(r, m, c, a, n1, n2, 0, 0); break;
    case GBV: emit(r, m, c, 0x2CC, 0x133, 0x2CC, 0, 0); break;
    case VID: {
      // ordinary pixels, pixels equal to island characters and to a guard band on some channels; never a
      // first pixel equal to the guard band on all three
      static const uint16_t P[5][3] = {{0x100, 0x3f0, 0x1e0}, {0x29C, 0x133, 0x171}, {0x2CC, 0x133, 0x1f0}, {0x163, 0x133, 0x133}, {0x2CC, 0x133, 0x2CC}};
      int k = c.choose(n == 1 ? 4 : 5);
      emit(r, m, c, P[k][0], P[k][1], P[k][2], 1, 0);
      break;
    }
    case PRED: c.cover(3); emit(r, m, c, a, n1, n2, 0, 0); break;
    case GBD: emit(r, m, c, TERC4[12 + c.choose(4)], 0x133, 0x133, 0, 1); break;
    case ISL: {
      static const uint8_t T[4][3] = {{0, 5, 10}, {8, 8, 8}, {2, 15, 1}, {8, 4, 8}};
      int k = c.choose(4);
      emit(r, m, c, TERC4[T[k][0]], TERC4[T[k][1]], TERC4[T[k][2]], 0, 2);
      break;
    }
    case GBT: emit(r, m, c, TERC4[12 + c.choose(4)], 0x133, 0x133, 0, 1); break;
  }
}
