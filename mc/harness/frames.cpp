// Frame extraction.  The reference packs the pixels of each frame, first pixel in the most significant
// position, into words; sof marks the first word of a frame; words cross from pix to sys in order.
// Edges: 0 pix, 1 sys, 2 both.
#include <deque>
#include <vector>
#if WW > 256
typedef unsigned _BitInt(512) u128;
#elif WW > 128
typedef unsigned _BitInt(256) u128;
#else
typedef unsigned __int128 u128;
#endif
static inline int64_t clampv(int64_t v, int64_t lo, int64_t hi) { return v < lo ? lo : v > hi ? hi : v; }
struct Px { uint8_t r, g, b; };
#ifdef YCBCR
#define PXB 16
static inline void conv(const Px& p, int& y, int& cb, int& cr) {   // 8-bit samples, 8-bit coefficients
  int64_t r = p.r, g = p.g, b = p.b, ca = 46, cbc = 15, cc = 141, cd = 166;
  int64_t yr = ((ca * (r - g) + cbc * (b - g)) >> 8) + g;
  y = clampv(yr + 16, 0, 255); cb = clampv(((cc * (b - yr)) >> 8) + 128, 0, 255); cr = clampv(((cd * (r - yr)) >> 8) + 128, 0, 255);
}
#else
#define PXB 32
#endif
#define PF (WW / PXB)
struct Word { u128 v, mask; int sof; };
#ifdef SWEEP
static inline Px pixel(uint64_t seed, int n) {
  uint64_t x = (seed * 1000003 + n) * 0x9E3779B97F4A7C15ull; x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 32;
  return Px{(uint8_t)x, (uint8_t)(x >> 8), (uint8_t)(x >> 16)};
}
struct Cyc { uint8_t de, vs, valid; Px p; int16_t done; };  // done: words completed once this cycle has been taken
static void build(std::vector<Cyc>& s, std::vector<Word>& ex, int f, int W, int H, int hb, int vfp, int vsw, int vbp, bool valid0, bool first, int drop = -1) {   // drop: from this pixel on nothing is valid
  bool valid = valid0;
  auto blank = [&](int n, int vs) { for (int k = 0; k < n; k++) s.push_back(Cyc{0, (uint8_t)vs, (uint8_t)valid, pixel(99, (int)s.size()), (int16_t)ex.size()}); };
  bool sof = !first;
  Word cur{0, 0, 0}; int n = 0;
  for (int y = 0; y < H; y++) {
    std::vector<Px> L;
    for (int x = 0; x < W; x++) L.push_back(pixel(f * 37 + 1, y * 256 + x));
    for (int x = 0; x < W; x++) {
      if (y * W + x == drop) valid = false;
      if (valid) {
        u128 e, m;
#ifdef YCBCR
        int Y, CB, CR; conv(L[x], Y, CB, CR);
        int Y2, CB2, CR2; bool pair = (x ^ 1) < W && (drop < y * W || y * W + (x ^ 1) < drop); if (pair) conv(L[x ^ 1], Y2, CB2, CR2); else { CB2 = CR2 = 0; }
        e = Y | ((x & 1 ? (CR + CR2) >> 1 : (CB + CB2) >> 1) << 8);
        m = pair ? 0xffff : 0xff;
#else
        e = L[x].b | L[x].g << 8 | L[x].r << 16; m = 0xffffff;
#endif
        int pos = PF - 1 - n;
        cur.v |= (e & m) << (PXB * pos); cur.mask |= m << (PXB * pos);
        if (++n == PF) { cur.sof = sof; sof = false; ex.push_back(cur); cur = Word{0, 0, 0}; n = 0; }
      }
      s.push_back(Cyc{1, 0, (uint8_t)valid, L[x], (int16_t)ex.size()});
    }
    if (y < H - 1) blank(hb, 0);
  }
  blank(vfp, 0); blank(vsw, 1); blank(vbp, 0);
}
#define NPAT 8
static const char* PAT[NPAT] = {"2", "01", "10", "011", "2011", "00101", "0211", "12101"};
#ifdef OVF
static const uint64_t N_CHUNKS = NPAT * 4 * 3;
#elif defined(RELOCK)
static const uint64_t N_CHUNKS = NPAT * 80 * 4;
#else
#define NWID (TH ? 40 : 20)
#define NHEI (TH ? 7 : 4)
#define NVAR (TH ? 48 : 16)
static const uint64_t N_CHUNKS = NPAT * NWID * NHEI * NVAR;
#endif
static void chunk(uint64_t kk, Ctx& c) {
  uint64_t k = kk;
  const char* pat = PAT[k % NPAT]; k /= NPAT;
  std::vector<Cyc> s; std::vector<Word> ex;
  std::vector<int> start;      // cycle where each frame starts
#ifdef OVF
  int per = 4 + k % 4; k /= 4; int var = (int)k;      // words per line, roughly
  int W = per * PF, NF = 5;
  for (int f = 0; f < NF; f++) { start.push_back((int)s.size()); build(s, ex, f + 7, W, 3, 16 + f, 20 + var, 2, 40, true, f == 0); }
#elif defined(RELOCK)
  // the pixel clock is lost in some cycle; other frames follow
  int cut = 5 + 2 * (k % 80); k /= 80; int var = (int)k;
  for (int f = 0; f < 2; f++) build(s, ex, f + 7, 2 * PF, 2, 16, 16, 2, 12, true, f == 0);
  if (cut > (int)s.size()) { c.cover(0); return; }
  s.resize(cut); ex.resize(s.back().done);
  const size_t nA = ex.size(), t0 = s.size(), t1 = t0 + 60;
  for (int q = 0; q < 60; q++) s.push_back(Cyc{(uint8_t)(q / 7 & 1), (uint8_t)(q / 20 & 1), 1, pixel(5, q), (int16_t)nA});
  for (int q = 0; q < 18; q++) s.push_back(Cyc{0, 0, 1, Px{1, 2, 3}, (int16_t)nA});
  for (int f = 0; f < 2; f++) build(s, ex, f + 27, 4 * PF + PF * (f == var), 1 + f, 16, 16, 2, 12, true, f == 0);
  bool after = false;
#else
  int W = 1 + k % NWID; k /= NWID; int H = 1 + k % NHEI; k /= NHEI; int var = (int)k;
  static const int W2[] = {3, 8, 5, 10, 4, 1, 7, 2, 6, 9};
  static const int HBS[] = {16, 1, 2, 12}, VFS[] = {16, 0, 12, 1};   // horizontal blanking, vertical front porch
  int NF = kk % 997 == 5 ? 300 : 5;      // some sources stay for long
  for (int f = 0; f < NF; f++) {
    bool alt = f == 2 || f == 3;
    start.push_back((int)s.size());
    int w = alt ? W2[(W + var / 4 - 1) % 10] * (PF > 4 ? 2 : 1) : W * (PF > 4 ? 2 : 1), h = alt ? 1 + (H + var) % 4 : H;
    build(s, ex, f + 7, w, h, HBS[(var + f) & 3], VFS[(3 * var + f + W) & 3], 1 + var % 3, 1 + (var + f) % 5 * 4, !(f == 2 && (var & 3) == 1), f == 0, f == 1 && W * H > 1 ? (var * 7 + W) % (W * H) : -1);
  }
#endif
  for (int q = 0; q < 80; q++) s.push_back(Cyc{0, 0, 1, Px{0, 0, 0}, (int16_t)ex.size()});
  Regs r; In i; Wires w; Out o;
  memset(&w, 0, sizeof w); memset(&o, 0, sizeof o);
  dut_init(r);
  size_t t = 0, got = 0; int np = (int)strlen(pat);
  bool prevstall = false; u128 hv = 0; int hs = 0;
  int lastovf = -1; bool lost = false; int clearing = 0; bool expect0 = true; int since = 0, settle = 0; int cleared = 0;
  size_t kept = 0; int ns = 0;
  for (int n = 0; t < s.size(); n++) {
    int e = pat[n % np] - '0';
    bool ep = e != 1, es = e != 0;
    in_init(i);
    i.de = s[t].de; i.vsync = s[t].vs; i.valid = s[t].valid; i.r = s[t].p.r; i.g = s[t].p.g; i.b = s[t].p.b;
    size_t done = t ? s[t - 1].done : 0;
    bool ready;
#ifdef OVF
    int f = 0; while (f + 1 < NF && (int)t >= start[f + 1]) f++;
    ready = !(f == 1 || f == 2);                    // frames 1 and 2 are not consumed
    if (var == 2 && f == 1 && (int)t < start[1] + 4) ready = true;
    if (f == 1 && (int)t >= start[2] - 30 && !cleared && es) { i.clear = 1; cleared = 1; since = 0; }
    else if (f == 3 && cleared == 1 && (int)t >= start[4] - 50 && es) { i.clear = 1; cleared = 2; since = 0; }
    else if (es) since++;
#elif defined(RELOCK)
    ready = var == 0 ? true : var == 1 ? ns & 1 : var == 2 ? (ns / 3) % 3 != 0 : t >= t1;
    i.rst = t >= t0 && t < t1;
    if (t >= t1 && !after) { after = true; got = nA; prevstall = false; c.cover(1); }
    if (i.rst) prevstall = false;
#else
    ready = (var & 3) == 0 ? true : (var & 3) == 1 ? ns & 1 : (var & 3) == 2 ? (ns / 3) % 3 != 0 : (ns % 7) > 3;
    if (done - got > 3) ready = true;
#endif
    i.ready = ready;
    c.comb(r, i, w, o);
    if (o.busy) { }
    u128 px = o.pixels;
    if (prevstall && es) {
      if (!o.valid) { c.fail("an offered word was withdrawn"); return; }
      if (px != hv || o.sof != hs) { c.fail("an offered word changed while it was stalled"); return; }
    }
    if (es) { prevstall = o.valid && !ready; hv = px; hs = o.sof; }
    if (es && o.valid && ready) {
#ifdef OVF
      // words may be missing, only where the consumer was blocked
      size_t q = got;
      auto match = [&](size_t z) { return z < done && ((px ^ ex[z].v) & ex[z].mask) == 0 && (int)o.sof == ex[z].sof; };
      while (q < done && !match(q)) q++;
      if (q == done) { c.fail("received a word (sof=%d) that is none of the words sent and not yet received", (int)o.sof); return; }
      if (q != got) {
        if (kept < FD) { c.fail("a word was lost although only %d words were waiting", (int)kept); return; }
        lost = true; c.cover(1);
      }
      if (f == 1 || f == 2 || f == 3) kept++;
      got = q + 1;
#else
      if (got >= done) { c.fail("word %d (sof=%d) delivered, only %d words sent", (int)got, (int)o.sof, (int)done); return; }
      const Word& x = ex[got];
      u128 df = (px ^ x.v) & x.mask;
      if (df) { c.fail("word %d: pixels %016llx%016llx, expected %016llx%016llx", (int)got, (unsigned long long)(px >> 64), (unsigned long long)px, (unsigned long long)(x.v >> 64), (unsigned long long)x.v); return; }
      if ((int)o.sof != x.sof) { c.fail("word %d of the stream: sof=%d, expected %d", (int)got, (int)o.sof, x.sof); return; }
      got++;
#endif
    }
#ifdef OVF
    if (es) {
      bool must1 = (f == 1 && cleared == 0 && (int)t >= start[2] - 34) || (f == 2 && (int)t >= start[3] - 20) || (f == 3 && cleared == 1 && (int)t < start[4] - 50);
      bool must0 = f == 0 || (f == 1 && (int)t < start[1] + 2 * PF) || (f == 4) || (f == 3 && cleared == 2 && since > 0) || (f == 1 && cleared == 1 && since > 0);
      if (must1 && !o.ovf) { c.fail("words were lost and the overflow is not reported"); return; }
      if (must0 && o.ovf) { c.fail("overflow reported, no word was lost since it was cleared"); return; }
      if (must1) c.cover(2);
    }
#else
    if (o.ovf) { c.fail("overflow reported although no word was lost"); return; }
#endif
    c.edge(e, r, i, w);
    if (ep) t++;
    if (es) ns++;
  }
  if (got != ex.size()) { c.fail("%d words delivered of %d", (int)got, (int)ex.size()); return; }
  c.cover(0);
}
#else
// Every interleaving of the two clocks and the consumer's decisions, for frames of one line.
struct Mon { uint8_t ph, cnt, tag, vs, n, half, sof, first; uint8_t q[8]; uint8_t sta, stw; };
static void start(Regs& r, Mon& m, Ctx& c) { dut_init(r); memset(&m, 0, sizeof m); }
static inline u128 wv(uint8_t e) { u128 v = 0; int t = e & 15; for (int k = 0; k < PF; k++) { int x = (t + k) % 3; u128 p = (x == 0 ? 0x5a : x == 1 ? 0xa5 : 0x3c) | (x == 1 ? 0x1200 : 0xc300) | (x == 2 ? 0x810000 : 0x180000); v |= p << (32 * (PF - 1 - k)); } return v; }
static void step(Regs& r, Mon& m, Ctx& c) {
  In i; Wires w; Out o;
  in_init(i); memset(&w, 0, sizeof w); memset(&o, 0, sizeof o);
  int e = c.choose(3);
  bool ep = e != 1, es = e != 0;
  i.valid = 1;
  // source: ph 0 blanking, 1 line
  if (m.ph == 0 && ep) {
    // at most FD words are outstanding, so that nothing is lost
    int k = c.choose(m.n < FD && !m.vs ? 3 : 2);
    if (k == 2) { m.ph = 1; m.cnt = 0; }
    else { if (k && !m.vs) m.sof = 1; m.vs = k; }
  }
  uint8_t px = (m.tag + m.cnt) % 3;
  if (m.ph == 1) { i.de = 1; int x = px; i.b = x == 0 ? 0x5a : x == 1 ? 0xa5 : 0x3c; i.g = x == 1 ? 0x12 : 0xc3; i.r = x == 2 ? 0x81 : 0x18; i.vsync = 0; }
  else { i.vsync = m.vs; i.r = 0x77; i.g = 0x66; i.b = 0x55; }
  i.ready = es ? c.choose(2) : 0;
  c.comb(r, i, w, o);
  if (o.ovf) { c.fail("overflow reported although no word was lost"); return; }
  if (es) {
    if (m.sta && !o.valid) { c.fail("an offered word was withdrawn"); return; }
    if (o.valid) {
      if (!m.n) { c.fail("a word is offered, none is outstanding"); return; }
      if ((u128)o.pixels << 8 >> 8 != wv(m.q[0]) || o.sof != (m.q[0] >> 4)) { c.fail("wrong word offered: sof=%d, expected %d", (int)o.sof, m.q[0] >> 4); return; }
      if (i.ready) { memmove(m.q, m.q + 1, 7); m.q[7] = 0; m.n--; c.cover(0); m.stw = 0; }
    }
    m.sta = o.valid && !i.ready;
    // liveness: with both clocks ticking a word is offered after a bounded number of common ticks
    if (m.n && !o.valid && e == 2) { if (++m.stw > 12) c.fail("a word sent is not delivered"); } 
    if (o.valid) m.stw = 0;
  }
  c.edge(e, r, i, w);
  if (ep && m.ph == 1) {
    if (++m.cnt == PF) { m.q[m.n++] = (m.tag % 3) | (m.sof << 4); if (m.sof) c.cover(1); m.sof = 0; m.tag = (m.tag + PF) % 3; m.cnt = 0; m.ph = 0; if (m.n == FD) c.cover(2); }
  }
}
#endif
