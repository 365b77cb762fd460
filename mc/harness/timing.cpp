// Timing generator: one frame of exactly the parameters per parameter entry, under every schedule.
struct P { int hres, hss, hse, hscan, vres, vss, vse, vscan; };
struct Mon { int8_t a, b, cur; uint8_t offer, run, pre; int16_t x, y; uint8_t frames, gap; };
static inline void load(In& i, const P* p, int de) {
  i.valid = p != nullptr;
  P z{}; if (!p) p = &z;
  i.hres = p->hres; i.hss = p->hss; i.hse = p->hse; i.hscan = p->hscan;
  i.vres = p->vres; i.vss = p->vss; i.vse = p->vse; i.vscan = p->vscan;
}
// one cycle; p: offered entry or null; returns true when the entry was consumed
static inline bool cycle(Regs& r, Mon& m, Ctx& c, const P* p, int ready) {
  In i; in_init(i); Wires w; Out o; memset(&w, 0, sizeof w); memset(&o, 0, sizeof o);
  load(i, p, 0); i.ready = ready;
  c.comb(r, i, w, o);
  bool pop = false;
  if (!p) {
    if (o.valid) c.fail("valid output without parameters");
    if (o.de) c.fail("data enable without parameters");
    m.run = 0; m.pre = 0;
  } else {
    if (!o.valid && m.run) c.fail("the output pauses by itself at column %d of line %d", m.x, m.y);
    pop = i.valid && o.sready;
    if (o.valid) {
      if (!m.run) {
        if (o.de) { m.run = 1; m.x = m.y = 0; }
        else {
          if (o.last) c.fail("last before the frame's first pixel");
          if (pop) c.fail("parameters consumed before the frame's first pixel");
          if (ready && ++m.pre > 4) c.fail("the frame does not start");
        }
      }
      if (m.run) {
        int de = m.x < p->hres && m.y < p->vres, hs = m.x >= p->hss && m.x < p->hse, vs = m.y >= p->vss && m.y < p->vse;
        int last = m.x == p->hscan && m.y == p->vscan;
        if (o.de != de || o.hsync != hs || o.vsync != vs || o.last != last)
          c.fail("column %d of line %d: de=%d hsync=%d vsync=%d last=%d, must be %d %d %d %d", m.x, m.y, (int)o.de, (int)o.hsync, (int)o.vsync, (int)o.last, de, hs, vs, last);
        if (pop != (ready && last)) c.fail("column %d of line %d: parameters %s", m.x, m.y, pop ? "consumed early" : "not consumed at the frame's end");
        if (ready) {
          if (m.x == p->hscan) { m.x = 0; m.y = m.y == p->vscan ? 0 : m.y + 1; } else m.x++;
        }
        c.cover(0);
        if (last && ready) c.cover(1);
      }
    } else if (pop) c.fail("parameters consumed while idle");
  }
  c.edge(0, r, i, w);
  return pop;
}
#ifdef SMALL
// every combination of small parameters; another format follows, and one frame is withdrawn midway
#include <vector>
struct Q { int res, ss, se, scan; };
static std::vector<Q> quads(int n) {
  std::vector<Q> v;
  for (int scan = 2; scan <= n; scan++) for (int res = 1; res < scan; res++) for (int ss = res; ss < scan; ss++) for (int se = ss + 1; se <= scan; se++) v.push_back(Q{res, ss, se, scan});
  return v;
}
static const std::vector<Q> HQ = quads(TH ? 9 : 7), VQ = quads(TH ? 6 : 5);
static const uint64_t N_CHUNKS = HQ.size() * VQ.size() * 4;
static void chunk(uint64_t kk, Ctx& c) {
  uint64_t k = kk / 4; const int pat = kk % 4;
  auto fmt = [&](uint64_t z) { Q h = HQ[z % HQ.size()], v = VQ[z / HQ.size() % VQ.size()]; return P{h.res, h.ss, h.se, h.scan, v.res, v.ss, v.se, v.scan}; };
  P f[3] = {fmt(k), fmt(k * 31 + 7), fmt(k * 17 + 3)};
  Regs r; Mon m; dut_init(r); memset(&m, 0, sizeof m);
  uint32_t s = kk * 77777 + 5; int gap = kk % 3, fr = 0; const int seq[5] = {0, 0, 1, 2, 0};
  const int cut = kk * 29 % ((f[2].hscan + 1) * (f[2].vscan + 1)); int at = 0;
  for (int t = 0; fr < 5 && !c.failed && t < 100000; t++) {
    s = s * 1664525 + 1013904223;
    int ready = pat == 0 ? 1 : pat == 1 ? t & 1 : pat == 2 ? (s >> 24 & 3) != 0 : (s >> 24 & 3) == 0;
    if (gap) { cycle(r, m, c, nullptr, ready); gap--; continue; }
    if (cycle(r, m, c, &f[seq[fr]], ready)) { fr++; if (fr & 1) gap = kk % 5; }
    else if (fr == 3 && at++ >= cut) { fr++; gap = 1 + kk % 3; c.cover(2); }
  }
  if (fr < 5) c.fail("frames do not end");
}
#elif defined(SWEEP)
static const P F[] = {{640, 656, 752, 799, 480, 490, 492, 524}, {1280, 1390, 1430, 1649, 720, 725, 730, 749}, {1920, 2008, 2052, 2199, 1080, 1084, 1089, 1124},
  {800, 840, 968, 1055, 600, 601, 605, 627}, {4093, 4093, 4094, 4095, 2, 2, 3, 4095}, {1, 2047, 2048, 4095, 300, 301, 302, 303}, {255, 256, 511, 512, 255, 256, 511, 512},
  {2048, 2049, 2050, 2051, 1, 1, 2, 2}, {16, 17, 18, 20, 4000, 4001, 4094, 4095}, {63, 64, 65, 127, 63, 64, 65, 127}};
#define NF 10
static const uint64_t N_CHUNKS = NF * 3;
static void chunk(uint64_t k, Ctx& c) {
  Regs r; Mon m; dut_init(r); memset(&m, 0, sizeof m);
  int cur = k % NF, fr = 0; uint32_t s = k * 77777 + 5; int gap = k % 4;
  uint64_t lim = c.sample ? 4000 : ~0ull;
  for (uint64_t t = 0; fr < 2 && !c.failed && t < lim; t++) {
    s = s * 1664525 + 1013904223;
    int ready = k / NF == 0 ? 1 : k / NF == 1 ? (s >> 24 & 3) != 0 : (s >> 24) < 32 + (t >> 9 & 127) || (t >> 14 & 1);
    if (gap) { cycle(r, m, c, nullptr, ready); gap--; continue; }
    if (cycle(r, m, c, &F[cur], ready)) { fr++; cur = (cur + 3) % NF; }
  }
}
#else
static const P T[] = {{1, 1, 2, 2, 1, 1, 2, 2}, {2, 3, 4, 5, 1, 1, 2, 2}, {1, 2, 3, 4, 2, 2, 3, 4}, {3, 3, 5, 6, 2, 3, 4, 4}, {4, 5, 6, 6, 3, 3, 4, 5}, {2, 2, 3, 3, 3, 4, 5, 6},
  {5, 6, 7, 8, 1, 2, 3, 3}, {1, 1, 3, 7, 4, 4, 6, 7}, {6, 6, 7, 7, 2, 2, 4, 4}, {2, 4, 5, 9, 2, 2, 3, 3}, {3, 4, 5, 5, 1, 1, 3, 3}, {7, 7, 8, 8, 3, 3, 4, 4}};
#define NT 12
static void start(Regs& r, Mon& m, Ctx& c) {
  dut_init(r); memset(&m, 0, sizeof m);
  m.a = c.choose(NT); m.b = c.choose(NT); m.cur = m.a;
}
static void step(Regs& r, Mon& m, Ctx& c) {
  // gaps of any length between entries; an entry may also be withdrawn before its frame is complete
  if (m.offer && c.choose(2)) {
    m.offer = 0; m.cur = c.choose(2) ? m.b : m.a;
    if (m.run) c.cover(4);
  } else if (!m.offer) { m.offer = c.choose(2); if (!m.offer && m.frames) c.cover(2); }
  int ready = c.choose(2);
  if (cycle(r, m, c, m.offer ? &T[m.cur] : nullptr, ready)) {
    if (m.frames < 2) m.frames++;
    m.offer = c.choose(2);
    m.cur = c.choose(2) ? m.b : m.a;
    if (m.offer) c.cover(3);
  }
}
#endif
