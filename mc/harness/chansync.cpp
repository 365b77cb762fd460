// Channel alignment.  Every channel carries the same line structure (blanking = control characters on
// all channels) with its own delay; each data character is tagged with its position in the source.
#include "fast.hpp"
#include "tmds.hpp"
#ifndef NCH
#define NCH 3
#endif
#ifndef DEPTH
#define DEPTH 8
#endif
#if NCH == 3
#define SETCH(i, k, R, D, C, E) do { if (k == 0) { i.raw0 = R; i.d0 = D; i.c0 = C; i.de0 = E; } else if (k == 1) { i.raw1 = R; i.d1 = D; i.c1 = C; i.de1 = E; } else { i.raw2 = R; i.d2 = D; i.c2 = C; i.de2 = E; } } while (0)
#define GETCH(o, k, R, D, C, E) do { if (k == 0) { R = o.raw0; D = o.d0; C = o.c0; E = o.de0; } else if (k == 1) { R = o.raw1; D = o.d1; C = o.c1; E = o.de1; } else { R = o.raw2; D = o.d2; C = o.c2; E = o.de2; } } while (0)
#else
#define SETCH(i, k, R, D, C, E) do { if (k == 0) { i.raw0 = R; i.d0 = D; i.c0 = C; i.de0 = E; } else { i.raw1 = R; i.d1 = D; i.c1 = C; i.de1 = E; } } while (0)
#define GETCH(o, k, R, D, C, E) do { if (k == 0) { R = o.raw0; D = o.d0; C = o.c0; E = o.de0; } else { R = o.raw1; D = o.d1; C = o.c1; E = o.de1; } } while (0)
#endif
struct Src { uint8_t de; uint16_t tag; uint8_t pos; };   // tag: data counter; pos: position within blanking
static inline void fill(In& i, int k, const Src& s) {
  if (s.de) SETCH(i, k, (s.tag * 4 + k) & 0x3ff, (s.tag * 3 + k) & 0xff, 0, 1);
  else SETCH(i, k, TMDS_CTL[s.tag & 3], 0, (s.tag & 3), 0);
}
#ifdef SWEEP
#include <vector>
// line structure: blanking B, active A; skews; where in the line the stream starts; a change of skews
// half-way; loss of validity.
#ifndef SK
#define SK DEPTH
#endif
#define NA 4
#define NB 3
#define NS (NCH == 3 ? SK * SK * SK : SK * SK)
static const uint64_t N_CHUNKS = (uint64_t)NS * NA * NB * (DEPTH / 2);
static void chunk(uint64_t kk, Ctx& c) {
  uint64_t k = kk;
  int sk[3] = {0, 0, 0}, sk2[3] = {0, 0, 0};
  for (int q = 0; q < NCH; q++) { sk[q] = k % SK; k /= SK; }
  static const int AL[NA] = {2 * DEPTH, 2 * DEPTH + 1, 3 * DEPTH + 3, 5 * DEPTH + 5};
  static const int BL[NB] = {DEPTH + 1, 2 * DEPTH + 1, 5 * DEPTH};
  int A = AL[k % NA]; k /= NA;
  int B = BL[k % NB]; k /= NB;
  int off = (int)k * 2 + (int)(kk % 2);
  if (kk % 499 == 3) { A += 2500 + kk % 1700; B += 300; }    // real lines
  for (int q = 0; q < NCH; q++) sk2[q] = (sk[(q + 1) % NCH] * 3 + q + off) % SK;
  Regs r; In i; Wires w; Out o;
  memset(&w, 0, sizeof w); memset(&o, 0, sizeof o);
  dut_init(r);
  int T = 7 * (A + B), tag = 0;
  // the source: tag increments on every data character
  std::vector<Src> src;
  for (int t = 0; t < 4 * T + 64; t++) {
    int p = (t + off) % (A + B);
    if (p >= B) src.push_back(Src{1, (uint16_t)tag++, 0}); else { src.push_back(Src{0, (uint16_t)(tag), (uint8_t)p}); }
  }
  int phase = 0, bl = 0, stable = 0, ok = 0;
  int last = -1; bool inblank = false; int blank_seen = 0; bool was_synced = false; int cs = 0;
  int gl = (int)(T / 2 + kk % 11), mis = 0, srun = 0; int sw1 = T, vdrop = 2 * T, t0 = DEPTH;
  for (int t = 0; t < 3 * T && !c.failed; t++) {
    in_init(i);
    bool v = !(t >= vdrop && t < vdrop + 3);
    i.valid = v;
    const int* s = t < sw1 ? sk : sk2;
    for (int q = 0; q < NCH; q++) { int x = t + t0 - s[q]; fill(i, q, src[x]); }
    // one corrupted data character reads as a control character on one channel
    if (t == gl && src[t + t0 - s[kk % NCH]].de) { fill(i, kk % NCH, Src{0, 1, 0}); blank_seen = 0; last = -1; c.cover(3); }
    if (t == sw1) { blank_seen = 0; stable = 0; last = -1; }
    // blankings completed on every channel since the skews last changed
    if (t > (t < sw1 ? 0 : sw1) + DEPTH + 1) {
      int x = t + t0 - DEPTH + 1;
      if (!src[x].de && src[x - 1].de) {}
      if (src[x].de && !src[x - 1].de) blank_seen++;
    }
    c.comb(r, i, w, o);
    int nde = 0, e0 = 0, bad = 0; unsigned R, D, C, E; int g0 = 0;
    unsigned RR[3], DD[3], CC[3], EE[3];
    for (int q = 0; q < NCH; q++) { GETCH(o, q, R, D, C, E); RR[q] = R; DD[q] = D; CC[q] = C; EE[q] = E; nde += E; }
    bool aligned = nde == 0 || nde == NCH;
    // the data characters of one cycle come from one source position
    int tg = -1;
    if (nde == NCH) {
      tg = (RR[0] >> 2);
      for (int q = 0; q < NCH; q++) if (RR[q] != ((tg * 4 + q) & 0x3ff)) aligned = false;
    } else if (nde == 0) {
      for (int q = 1; q < NCH; q++) if (RR[q] != RR[0] || CC[q] != CC[0]) {}
    }
    if (blank_seen >= 2) {
      c.cover(1);
      if (!aligned) { c.fail("the channels are not aligned (skews %d %d %d, blanking %d, active %d)", s[0], s[1], s[2], B, A); return; }
      if (!o.synced && v && !(t >= vdrop && t < vdrop + A + B + DEPTH)) { c.fail("aligned but not reported as synchronised (skews %d %d %d, blanking %d, active %d)", s[0], s[1], s[2], B, A); return; }
      if (nde == NCH) {
        for (int q = 0; q < NCH; q++) if (EE[q] != 1 || DD[q] != (((unsigned)(tg * 3 + q)) & 0xff)) { c.fail("channel %d carries altered data", q); return; }
        // nothing lost or repeated
        if (last >= 0 && tg != ((last + 1) & 0xff)) { c.fail("data character %d follows %d: characters were lost or repeated (skews %d %d %d, blanking %d, active %d)", tg, last, s[0], s[1], s[2], B, A); return; }
        last = tg;
        c.cover(2);
      }
    }
    srun = o.synced ? srun + 1 : 0;
    // misalignment is reported
    if (nde > 0 && nde < NCH) mis++; else mis = 0;
    if (mis >= 3) { c.cover(4); if (o.synced) { c.fail("reported as synchronised while only some channels are in blanking"); return; } }
    if (t > vdrop + 1 && t <= vdrop + 3 && o.synced) { c.fail("reported as synchronised although the input is not valid"); return; }
    if (t > sw1 + 8 + LAG && blank_seen >= 2 && !(t >= vdrop - 4 && t < vdrop + A + B + DEPTH + 8 + LAG) && (!LAG || srun > LAG)) {
      if (!o.csr) { c.fail("status register reads not synchronised"); return; }
    }
    EDGE();
  }
  c.cover(0);
}
#else
// every line structure with at least MINB control and MINA data characters, every slip of one channel
#define MINB (DEPTH + 1)
#define MINA (2 * DEPTH)
#define TAGM 16
struct Mon { uint8_t de[DEPTH], tag[DEPTH]; uint8_t len, tagn, sk, seen, mis; int8_t last; uint8_t vlow; };
static inline void one(Regs& r, Mon& m, Ctx& c, int de, int v) {
  In i; Wires w; Out o;
  in_init(i); memset(&w, 0, sizeof w); memset(&o, 0, sizeof o);
  memmove(m.de + 1, m.de, DEPTH - 1); memmove(m.tag + 1, m.tag, DEPTH - 1);
  if (de) m.tagn = (m.tagn + 1) % TAGM;
  m.de[0] = de; m.tag[0] = de ? m.tagn : 2;
  i.valid = v;
  int sk[2] = {m.sk & 15, m.sk >> 4};
  for (int q = 0; q < NCH; q++) fill(i, q, Src{m.de[sk[q]], m.tag[sk[q]], 0});
  if (m.de[DEPTH - 1] && !m.de[DEPTH - 2]) {}
  if (!m.de[DEPTH - 1] && m.de[DEPTH - 2] && m.seen < 4) m.seen++;
  c.comb(r, i, w, o);
  unsigned R[2], D[2], C[2], E[2]; int nde = 0;
  for (int q = 0; q < NCH; q++) { GETCH(o, q, R[q], D[q], C[q], E[q]); nde += E[q]; }
  bool al = (nde == 0 && C[0] == C[1]) || (nde == NCH && (R[0] >> 2) == (R[1] >> 2) && (R[0] & 3) == 0 && (R[1] & 3) == 1);
  if (m.seen >= 3) {
    c.cover(1);
    if (!al) c.fail("the channels are not aligned (skews %d %d) after three blankings", sk[0], sk[1]);
    if (!o.synced && !m.vlow) c.fail("aligned but not reported as synchronised");
    if (nde == NCH) {
      int tg = R[0] >> 2;
      if (m.last >= 0 && tg != (m.last + 1) % TAGM) c.fail("data characters lost or repeated");
      m.last = tg; c.cover(2);
    }
  } else m.last = -1;
  if (nde > 0 && nde < NCH) { if (m.mis < 3) m.mis++; } else m.mis = 0;
  if (m.mis == 3) { c.cover(4); if (o.synced) c.fail("reported as synchronised while only some channels are in blanking"); }
  if (m.vlow == 1 && o.synced) c.fail("reported as synchronised although the input is not valid");
  // after a loss of validity the report returns with the next blanking
  if (!v) m.vlow = 1; else if (m.vlow == 1) m.vlow = 2; else if (m.vlow && o.synced) m.vlow = 0;
  EDGE();
}
static void start(Regs& r, Mon& m, Ctx& c) {
  dut_init(r); memset(&m, 0, sizeof m); m.last = -1;
  m.sk = c.choose(DEPTH) | c.choose(DEPTH) << 4;
  for (int q = 0; q < 2 * MINB; q++) one(r, m, c, 0, 1);
  m.len = MINB;
}
static void step(Regs& r, Mon& m, Ctx& c) {
  int de = m.de[0], v = 1;
  int min = de ? MINA : MINB, max = min + 1;
  bool may = m.len >= min, mustsw = m.len >= max;
  if (mustsw || (may && c.choose(2))) { de = !de; m.len = 0; }
  else if (SLIPS && m.seen == 3 && !de && m.len == 2) {
    int k = c.choose(1 + DEPTH);
    if (k) { m.sk = (k - 1) | (m.sk & 0xf0); m.seen = 0; m.last = -1; c.cover(3); }
  }
  if (m.seen == 3 && m.len == 3) v = !c.choose(2);
  m.len++;
  one(r, m, c, de, v);
}
#endif
