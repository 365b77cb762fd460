// Genlocked output: the timing comes from outside and never waits; after every disturbance the frames are aligned again.
struct P { int hres, hss, hse, hscan, vres, vss, vse, vscan; };
static const P T = FMT;
// words of the frame buffer behind the delay
#ifdef FAR
#define WORDS (T.hres * T.vres)
#else
#define WORDS (T.hres * T.vres - DLY)
#endif
#define QD 8
#ifndef RATIO
#define RATIO 1                                    // words per word of the memory (litedram's converter in between)
#endif
static const unsigned BASE = 0x40;
struct Mon { uint8_t q[QD]; uint8_t nq, en, frames, hic, bad, k, started; int8_t x, y; uint8_t lag; };
static void cyc(Regs& r, Mon& m, Ctx& c, int cready, int rvalid, int wr, int setup) {
  In i; in_init(i); Wires w; Out o; memset(&w, 0, sizeof w); memset(&o, 0, sizeof o);
  if (setup) { i.base_re = i.len_re = i.dly_re = 1; i.base_r = BASE * 4; i.len_r = (WORDS + DLY) * 4; i.dly_r = DLY; }
  if (wr) { i.en_re = 1; i.en_r = 1; }
  int de = m.x < T.hres && m.y < T.vres, hs = m.x >= T.hss && m.x < T.hse, vs = m.y >= T.vss && m.y < T.vse;
  i.gvalid = !setup; i.gde = de; i.ghs = hs; i.gvs = vs;
  i.cready = cready; i.ready = 1;
  bool rv = rvalid && m.nq;
#if RATIO > 1
  if (rv) { c.comb(r, i, w, o); rv = o.rready; memset(&w, 0, sizeof w); }
  i.rdata = 0;
  if (rv) for (int j = 0; j < RATIO; j++) i.rdata |= (uint64_t)(0x1000 | (m.q[0] + j)) << j * 32;
#else
  i.rdata = rv ? 0x1000 | m.q[0] : 0;
#endif
  i.rvalid = rv;
  c.comb(r, i, w, o);
  if (rv) { for (int k = 0; k + 1 < m.nq; k++) m.q[k] = m.q[k + 1]; m.nq--; m.q[m.nq] = 0; }
  if (rv && !o.rready) c.fail("memory data is not accepted");
  if (o.cvalid && cready) {
    if (o.caddr < (BASE + DLY) / RATIO || o.caddr * RATIO >= BASE + DLY + WORDS) c.fail("reads word address 0x%x, outside the frame buffer", (unsigned)o.caddr);
    else if (m.nq == QD) c.fail("too many requests");
    else m.q[m.nq++] = o.caddr * RATIO - BASE - DLY;
  }
  if (!setup) {
    if (o.valid && (o.de != de || o.hsync != hs || o.vsync != vs)) c.fail("the timing is not the external one");
    if (!o.valid && !de) c.fail("no output in blanking");
    if (de && m.k < WORDS) {
      // judged once two frames have begun since the start and since the last pixel the memory was late for
      if (m.frames >= 3) {
        if (!o.valid) {
          if (!m.hic) c.fail("word %d does not arrive", m.k);
          m.frames = 0; m.bad = 1;
        }
        else if ((unsigned)o.data != (0x1000u | m.k)) c.fail("word %d of the frame shows %x", m.k, (unsigned)o.data);
        else { c.cover(0); if (m.bad) c.cover(1); }
      } else if (!o.valid) m.frames = m.frames > 1 && m.hic ? 1 : m.frames;
      m.k++;
    }
    if (m.x == T.hscan) {
      m.x = 0;
      if (m.y == T.vscan) { m.y = 0; m.k = 0; if (m.hic) m.hic--; if (m.en && m.frames < 3) m.frames++; } else m.y++;
    } else m.x++;
  }
  if (wr) m.en = 1;
  c.edge(0, r, i, w);
}
static void start(Regs& r, Mon& m, Ctx& c) {
  dut_init(r); memset(&m, 0, sizeof m);
  cyc(r, m, c, 1, 1, 0, 1);
}
static void step(Regs& r, Mon& m, Ctx& c) {
  int wr = m.en ? 0 : c.choose(2);
  int late = m.started < HICCUPS * 2 + 1 && m.frames == 3 || m.lag ? c.choose(2) : 0;
  // the memory is late for a while
  if (late && !m.lag) { m.lag = 1; m.started++; }
  if (!late && m.lag) { m.lag = 0; m.started++; }
  if (m.started > HICCUPS * 2) { m.lag = 0; late = 0; }
  if (late) m.hic = 2;
  cyc(r, m, c, 1, !late, wr, 0);
}
