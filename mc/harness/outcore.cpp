// Video output core: frames of pixels from a memory model.
struct P { int hres, hss, hse, hscan, vres, vss, vse, vscan; };
#ifndef FMT
#define FMT {3, 3, 4, 4, 2, 2, 3, 3}
#endif
static const P T = FMT;
#ifdef DUAL
#define SYS_AND_VIDEO 2
#define DUALF 1
#else
#define SYS_AND_VIDEO 0
#define DUALF 0
#endif
#ifndef QD
#define QD 8
#endif
#ifdef RAW
#define WORDS ((T.hscan + 1) * (T.vscan + 1))
#else
#define WORDS (T.hres * T.vres)
#endif
#ifdef BYTES
static const unsigned BASE[2] = {0x40, 0x265};     // word addresses
#else
static const unsigned BASE[2] = {0x40, 0x240};     // word addresses
#endif
struct Mon {
  uint8_t q[QD]; uint8_t part, nq, up, enw, en, sel, want, run, pre, dis, stall, inval, changes, fb, pb, stale;
  int16_t x, y, k; uint8_t seen;
#ifdef SWEEP
  uint32_t ufl; int valid;
#endif
};
static inline unsigned word(unsigned id, unsigned k) { return ((id + 1) << 12 | (k & 0xfff)) & MASK; }
#ifdef SWEEP
static thread_local uint32_t lastuc;
#endif
struct Act { int cready, rvalid, ready, wr; };     // wr: 1 enable, 2 disable, 3 base 0, 4 base 1
#ifndef RATIO
#define RATIO 1                                    // words per word of the memory (litedram's converter in between)
#endif
static inline unsigned tag(unsigned addr, Ctx& c) {
  for (unsigned b = 0; b < 2; b++) if (addr >= BASE[b] / RATIO && addr * RATIO < BASE[b] + WORDS) return b << 7 | (addr * RATIO - BASE[b]);
  c.fail("reads word address 0x%x, outside the frame buffer", addr);
  return 0;
}
static inline void cyc(Regs& r, Mon& m, Ctx& c, const Act& a, int setup = 0, int e = SYS_AND_VIDEO) {
  In i; in_init(i); Wires w; Out o; memset(&w, 0, sizeof w); memset(&o, 0, sizeof o);
  i.cready = a.cready; i.ready = a.ready;
  if (a.wr == 1 || a.wr == 2) { i.en_re = 1; i.en_r = a.wr == 1; }
#ifdef BYTES
  // the last byte written makes the new value valid
  if (a.wr == 3 || a.wr == 4) { i.base1_re = 1; i.base1_r = BASE[a.wr - 3] * (DW / 8) >> 8; }
  if (a.wr == 8) { i.base_re = 1; i.base_r = BASE[m.part - 1] * (DW / 8) & 255; }
#else
  if (a.wr == 3 || a.wr == 4) { i.base_re = 1; i.base_r = BASE[a.wr - 3] * (DW / 8); }
#endif
  if (setup == 1) {
    i.hres_re = i.hss_re = i.hse_re = i.hscan_re = i.vres_re = i.vss_re = i.vse_re = i.vscan_re = i.len_re = 1;
    i.hres_r = T.hres; i.hss_r = T.hss; i.hse_r = T.hse; i.hscan_r = T.hscan;
    i.vres_r = T.vres; i.vss_r = T.vss; i.vse_r = T.vse; i.vscan_r = T.vscan; i.len_r = WORDS * (DW / 8);
  }
  const bool vid = !DUALF || e != 0;
  if (a.wr == 5) { i.ue_re = 1; i.ue_r = 1; }
  if (a.wr == 6) i.uu_re = 1;
  if (a.wr == 7) { i.ue_re = 1; i.ue_r = 0; }
  bool rv = a.rvalid && m.nq;
#if RATIO > 1
  if (rv) { c.comb(r, i, w, o); rv = o.rready; memset(&w, 0, sizeof w); }
  i.rdata = 0;
  if (rv) for (int j = 0; j < RATIO; j++) i.rdata |= (uint64_t)word(m.q[0] >> 7, (m.q[0] & 127) + j) << j * DW;
  i.rvalid = rv;
#else
  i.rvalid = rv; i.rdata = rv ? word(m.q[0] >> 7, m.q[0] & 127) : 0;
#endif
  c.comb(r, i, w, o);
#ifdef SWEEP
  m.valid = o.valid;
  if (a.wr == 6 && o.uc != 0 && !m.ufl) c.fail("underflow counter is not zero at first");
  if (vid && !o.valid) m.ufl++;
  lastuc = o.uc;
#endif
  if (!vid) goto software;
  {
  if (rv && !o.rready) c.fail("memory data is not accepted: more requested than there is room for");
  bool cmd = o.cvalid && a.cready;
  if (o.cwe) c.fail("write command");
  if (rv) { for (int k = 0; k + 1 < m.nq; k++) m.q[k] = m.q[k + 1]; m.nq--; m.q[m.nq] = 0; }
  if (cmd) {
    unsigned tg = tag(o.caddr, c);
    if (m.nq == QD) c.fail("too many requests"); else m.q[m.nq++] = tg;
  }
  // an output that never comes although the memory answers at once
  bool idle = !m.run || (m.x == 0 && m.y == 0);
  if (o.valid || !a.cready || (m.nq && !rv) || (m.enw == 0 && idle)) m.stall = 0;
  else if (++m.stall > 24 + DEPTH) c.fail("no output although the memory answers");
  if (o.valid && m.run && m.x == 0 && m.y == 0 && !o.de && m.dis) m.run = 0;      // stopped at a frame's end and started again
  if (o.valid) {
    if (!m.run) {
      if (o.de) { m.run = 1; m.x = m.y = 0;
#ifndef RAW
        m.k = 0;
#endif
      }
      else if (a.ready && ++m.pre > 4) c.fail("the frame does not start");
    }
    bool use = o.de;
#ifdef RAW
    use = true;
    if (!m.run && m.pre == (a.ready ? 1 : 0)) m.k = 0;
#endif
    if (m.run) {
      int de = m.x < T.hres && m.y < T.vres, hs = m.x >= T.hss && m.x < T.hse, vs = m.y >= T.vss && m.y < T.vse;
      if (o.de != de || o.hsync != hs || o.vsync != vs) c.fail("column %d of line %d: de=%d hsync=%d vsync=%d, must be %d %d %d", m.x, m.y, (int)o.de, (int)o.hsync, (int)o.vsync, de, hs, vs);
    }
    if (use) {
      unsigned d = (unsigned)o.data, b = d == word(0, m.k) ? 0 : d == word(1, m.k) ? 1 : 2;
      if (b == 2) c.fail("word %d of the frame shows %x", (int)m.k, d);
      else {
        if (m.k == 0) { m.pb = m.fb; m.fb = b; }
        else if (b != m.fb) {
          // known finding: the words fetched ahead come from the previous frame's buffer
#ifdef KF_O02_tear
          if (m.fb == m.pb && m.seen && m.k <= DEPTH + 2) { c.known(0); m.fb = b; }
          else
#endif
          c.fail("word %d of the frame comes from buffer %d, the ones before from buffer %d", (int)m.k, b, m.fb);
        }
        if (m.k == WORDS - 1 && a.ready) {
          m.seen = 1;
          if (b == m.sel) m.stale = 0;
          else if (++m.stale > 8) c.fail("the new buffer is never shown");
          c.cover(0); if (b) c.cover(1);
        }
      }
    }
    if (a.ready) {
      if (use) { m.k++; if (m.k == WORDS) m.k = 0; }
      if (m.run) {
        if (m.x == T.hscan) { m.x = 0; if (m.y == T.vscan) { m.y = 0; m.pre = 0; } else m.y++; } else m.x++;
        if (m.x == 0 && m.y == 0) c.cover(2);
      }
    }
  } else if (m.run && m.dis && idle) { m.run = 0; m.pre = 0; c.cover(3); }
  }
software:
  if (a.wr == 1) m.enw = 1;
  if (a.wr == 2) { m.enw = 0; m.dis = 1; }
#ifdef BYTES
  if (a.wr == 3 || a.wr == 4) m.part = a.wr - 2;
  if (a.wr == 8) { m.sel = m.part - 1; m.stale = 0; m.part = 0; }
#else
  if (a.wr == 3 || a.wr == 4) { m.sel = a.wr - 3; m.stale = 0; }
#endif
  c.edge(e, r, i, w);
}
static void begin(Regs& r, Mon& m, Ctx& c) {
  dut_init(r); memset(&m, 0, sizeof m);
  cyc(r, m, c, Act{0, 0, 0, 0}, 1);
  cyc(r, m, c, Act{0, 0, 0, 3});
#ifdef BYTES
  cyc(r, m, c, Act{0, 0, 0, 8});
#endif
  cyc(r, m, c, Act{0, 0, 0, 1});
}
#ifdef SWEEP
// clock ratios, memory latencies and bursts, consumer stalls, disabling and buffer changes at any time
static const uint64_t N_CHUNKS = NV;
static void chunk(uint64_t kk, Ctx& c) {
  Regs r; Mon m; begin(r, m, c);
  uint64_t s = kk * 0x9E3779B97F4A7C15ull + 99;
  auto rnd = [&](int n) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return (int)((s >> 20) % n); };
  const int ratio = kk % 5, lat = kk / 5 % 4, cons = kk / 20 % 3, mode = kk / 60 % 4;
  int period = 20 + rnd(WORDS * 12), burst = 0, uon = 0; uint32_t u0 = 0, hold = 0; bool held = false; int ut = 0, vc = 0; int off = 0; const int FRAME = (T.hscan + 1) * (T.vscan + 1);
  m.ufl = 0;
  for (int t = 0; t < 260 * WORDS && !c.failed; t++) {
    Act a{};
    int ph = t % 7;
#ifdef DUAL
    int e = ratio == 0 ? (t & 1) : ratio == 1 ? 2 : ratio == 2 ? (ph < 5 ? 1 : 2) : ratio == 3 ? (ph < 3 ? 0 : ph == 3 ? 2 : 1) : rnd(3);
#else
    int e = 0;
#endif
    vc += !DUALF || e != 0;
    bool sys = !DUALF || e != 1;
    if (!burst) { if (lat == 0 || (t & 63) < 20) burst = -1; else if (rnd(4) == 0) burst = 1 + rnd(12); }
    bool nice = mode == 3 && t % 499 > 380;                      // the memory keeps up around counter updates
    a.cready = nice || lat == 0 || (lat == 1 ? rnd(2) : lat == 2 ? (t & 31) < 12 : rnd(6) == 0);
    a.rvalid = nice || lat == 0 || (lat == 1 ? rnd(3) != 0 : lat == 2 ? (t & 15) > 5 : rnd(5) == 0);
    a.ready = nice ? vc & 1 : mode == 3 || (cons == 0 ? 1 : cons == 1 ? rnd(2) : (t & 7) < 3);
    if (sys) {
      if (mode == 1 && t % period == period - 1) a.wr = m.sel ? 3 : 4;
      if (mode == 2 && t > 40 && (m.enw ? rnd(period) == 0 : --off < 0)) {
        a.wr = m.enw ? 2 : 1;
        off = rnd(3) ? FRAME * (3 + rnd(12)) + rnd(40) : rnd(20);
      }
      if (mode == 3) {
        int q = t % 499;
        if (uon == 0 && q >= 430 && q < 440) { a.wr = 5; uon = 1; ut = t; }
        else if (uon == 1 && t > ut + 200) uon = 2;
        else if (uon == 2 && q >= 440 && q < 450) { a.wr = 6; uon = 3; }
        else if (uon == 3 && q >= 480) { a.wr = 7; uon = 0; }
      }
    }
    if (uon == 1 && t == ut + 30) u0 = m.ufl;
    cyc(r, m, c, a, 0, e);
    if (mode == 3 && uon == 3 && t % 499 == 470) {
      if (lastuc != m.ufl - u0) { c.fail("underflow counter reads %u, there were %u cycles without output", lastuc, m.ufl - u0); return; }
      c.cover(4); if (m.ufl != u0) c.cover(5);
      hold = lastuc; held = true;
    }
    if (held && t % 499 == 425 && lastuc != hold) { c.fail("the underflow counter changed from %u to %u without being updated", hold, lastuc); return; }
    if (c.sample && t > 6000) return;
  }
}
#endif
#ifndef SWEEP
static void start(Regs& r, Mon& m, Ctx& c) { begin(r, m, c); }
static void step(Regs& r, Mon& m, Ctx& c) {
  Act a{};
  a.cready = CREADY ? 1 : c.choose(2);
  a.rvalid = m.nq ? c.choose(2) : 0;
  a.ready = READY ? 1 : c.choose(2);
#ifdef TOGGLE
  if (m.changes < TOGGLE || m.changes & 1) if (c.choose(2)) { m.changes++; a.wr = m.enw ? 2 : 1; }
#endif
#ifdef FLIP
#ifdef BYTES
  if (m.part) { if (c.choose(2)) a.wr = 8; }
  else
#endif
  if (m.changes < FLIP && m.seen) if (c.choose(2)) { m.changes++; a.wr = m.sel ? 3 : 4; }
#endif
  cyc(r, m, c, a);
}
#endif
