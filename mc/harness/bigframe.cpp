// Video output core: frames of real sizes anywhere in memory.
struct P { int hres, hss, hse, hscan, vres, vss, vse, vscan; };
static const P F[] = {{640, 656, 752, 799, 480, 490, 492, 524}, {1280, 1390, 1430, 1649, 720, 725, 730, 749}, {1920, 2008, 2052, 2199, 1080, 1084, 1089, 1124},
  {800, 840, 968, 1055, 600, 601, 605, 627}, {4080, 4082, 4090, 4095, 40, 41, 42, 44}, {24, 25, 28, 31, 4000, 4010, 4020, 4095}, {256, 257, 260, 263, 256, 257, 258, 259},
  {255, 256, 257, 258, 257, 258, 259, 260}};
#define NF 8
static const uint64_t N_CHUNKS = NF * 2;
#define AW 24
static inline unsigned word(uint64_t addr) { uint64_t h = addr * 0x9E3779B97F4A7C15ull; return (unsigned)(h >> 24) & MASK; }
static void chunk(uint64_t kk, Ctx& c) {
  const P& T = F[kk % NF];
  const int mem = kk / NF;
  const int64_t words = RAW ? (int64_t)(T.hscan + 1) * (T.vscan + 1) : (int64_t)T.hres * T.vres;
  const uint64_t bases[3] = {(1u << AW) - (uint64_t)words, 0x10000 - 5, 0x123456 + 7 * kk};
  const uint64_t base = bases[kk % 3] + words <= 1u << AW ? bases[kk % 3] : (1u << AW) - words;
  Regs r; dut_init(r);
  enum { QN = 256 };
  static thread_local uint32_t q[QN]; unsigned qh = 0, qt = 0;
  uint64_t s = kk * 0x9E3779B97F4A7C15ull + 99; int run = 0, x = 0, y = 0, frames = 0, stall = 0, pre = 0; int64_t k = 0;
  for (uint64_t t = 0; frames < 2 && !c.failed; t++) {
    if (c.sample && t > 3000) return;
    In i; in_init(i); Wires w; Out o; memset(&w, 0, sizeof w); memset(&o, 0, sizeof o);
    if (t == 0) {
      i.hres_re = i.hss_re = i.hse_re = i.hscan_re = i.vres_re = i.vss_re = i.vse_re = i.vscan_re = i.len_re = i.base_re = 1;
      i.hres_r = T.hres; i.hss_r = T.hss; i.hse_r = T.hse; i.hscan_r = T.hscan;
      i.vres_r = T.vres; i.vss_r = T.vss; i.vse_r = T.vse; i.vscan_r = T.vscan; i.len_r = words * (DW / 8); i.base_r = base * (DW / 8);
    }
    if (t == 1) { i.en_re = 1; i.en_r = 1; }
    s ^= s << 13; s ^= s >> 7; s ^= s << 17;
    int ready = mem ? (s & 7) != 0 : 1, cready = mem ? (s >> 8 & 7) != 0 : 1, rv = qh != qt && (mem ? (s >> 16 & 7) != 0 : 1);
    i.cready = cready; i.ready = ready; i.rvalid = rv; i.rdata = rv ? word(q[qh % QN]) : 0;
    c.comb(r, i, w, o);
    if (rv && !o.rready) c.fail("memory data is not accepted: more requested than there is room for");
    if (rv) qh++;
    if (o.cvalid && cready) {
      if (o.caddr < base || o.caddr >= base + words) c.fail("reads word address 0x%x, outside the frame buffer", (unsigned)o.caddr);
      if (qt - qh == QN) c.fail("too many requests"); else q[qt++ % QN] = o.caddr;
    }
    if (o.valid) {
      stall = 0;
      if (!run) { if (o.de) { run = 1; x = y = 0; k = 0; } else if (ready && ++pre > 4) c.fail("the frame does not start"); else if (RAW && ready) k = 0; }
      if (run) {
        int de = x < T.hres && y < T.vres, hs = x >= T.hss && x < T.hse, vs = y >= T.vss && y < T.vse;
        if (o.de != de || o.hsync != hs || o.vsync != vs) c.fail("column %d of line %d: de=%d hsync=%d vsync=%d, must be %d %d %d", x, y, (int)o.de, (int)o.hsync, (int)o.vsync, de, hs, vs);
        if (RAW && !frames && x == 0 && y == 0) for (k = 0; k < 8 && (unsigned)o.data != word(base + k); k++);
        if (RAW || de) {
          if ((unsigned)o.data != word(base + k)) c.fail("word %ld of the frame shows %x, must be %x", (long)k, (unsigned)o.data, word(base + k));
          c.cover(0);
        }
        if (ready) {
          if (RAW || de) if (++k == words) k = 0;
          if (x == T.hscan) { x = 0; if (y == T.vscan) { y = 0; frames++; c.cover(1); } else y++; } else x++;
        }
      }
    } else if (++stall > 200 + 2 * DEPTH) c.fail("no output although the memory answers");
    c.edge(0, r, i, w);
  }
}
