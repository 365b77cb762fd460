// Delay control and phase error accumulator: one register access at a time, then everything settles.
// each single operation, then operations on both delays at once
#ifdef S7
static const int OPS[] = {1, 2, 4, 8, 16, 2 | 8, 2 | 16, 4 | 8, 4 | 16};
#define NOP 9
#else
static const int OPS[] = {1, 2, 4, 8, 16, 32, 1 | 4, 2 | 8};
#define NOP 8
#endif
#define MID (1 << (NT - 1))
#define TOP ((1 << NT) - 1)
struct Mon { uint8_t late; uint8_t md, mq; uint8_t busym, busys; };
struct P { int mce, minc, sce, sinc, rst, mcal, mrst, scal, srst; };
static Out cur;
#ifndef NS      // system clock edges and word clock edges per step of the harness; 0, 0: one clock for both
#define NS 0
#define NW 0
#endif
static inline void eval(Regs& r, Mon& m, Ctx& c, In& i, Wires& w, Out& o) {
  memset(&w, 0, sizeof w); memset(&o, 0, sizeof o);
#ifndef S7
  i.mbusy = m.busym > 0; i.sbusy = m.busys > 0;
#endif
  c.comb(r, i, w, o);
}
// what the delay primitives see at an edge of their clock
static inline void word(Mon& m, Ctx& c, Out& o, P& p) {
#ifdef S7
  p.rst += o.ld; p.mce += o.mce; p.minc += o.mce & o.minc; p.sce += o.sce; p.sinc += o.sce & o.sinc;
  if (o.ldm != o.ld) c.fail("the two delays are not reset together");
#else
  if (o.mce != o.sce || o.minc != o.sinc) c.fail("the two delays are not stepped together");
  p.mce += o.mce; p.minc += o.mce & o.minc; p.mcal += o.mcal; p.mrst += o.mrst; p.scal += o.scal; p.srst += o.srst;
  if (m.busym) m.busym--; if (m.busys) m.busys--;
  if (o.mcal || o.mce) m.busym = BUSY; if (o.scal || o.sce) m.busys = BUSY;
#endif
}
static inline void tick(Regs& r, Mon& m, Ctx& c, In& i, P& p) {
  Wires w; Out o;
  if (NS == 0) { eval(r, m, c, i, w, o); word(m, c, o, p); cur = o; c.edge(0, r, i, w); return; }
  // a register access lasts one cycle of the system clock, an observation one cycle of the word clock
  for (int k = 0; k < NS; k++) { eval(r, m, c, i, w, o); cur = o; c.edge(1, r, i, w); i.ctl_re = 0; i.phase_reset = 0; }
  for (int k = 0; k < NW; k++) { eval(r, m, c, i, w, o); word(m, c, o, p); c.edge(2, r, i, w);
#ifndef S7
    i.pd_valid = 0;
#endif
  }
}
static inline void base(In& i, Mon& m) {
  in_init(i);
#ifdef S7
  i.m = m.md; i.s = INV ? m.mq : (uint8_t)~m.mq;
  if (INV) i.m = (uint8_t)~m.md;
#endif
}
static inline void settle(Regs& r, Mon& m, Ctx& c, P& p, int n) { In i; base(i, m); for (int k = 0; k < n; k++) tick(r, m, c, i, p); }
static inline void check(Mon& m, Ctx& c) {
  int late = m.late == TOP, early = m.late == 0;
  if (cur.phase != (late | early << 1)) c.fail("phase status reads %d with an accumulated phase error of %d", (int)cur.phase, (int)m.late - MID);
  if (late) c.cover(1); if (early) c.cover(2);
}
static void start(Regs& r, Mon& m, Ctx& c) {
  dut_init(r); memset(&m, 0, sizeof m); m.late = MID; m.md = 0; m.mq = 0;
  P p{}; settle(r, m, c, p, 2);
  // power-up: the first data is no transition anybody relies on: reset the accumulator
  In i; base(i, m); i.phase_reset = 1; tick(r, m, c, i, p);
  settle(r, m, c, p, 16); m.late = MID; check(m, c);
}
static void step(Regs& r, Mon& m, Ctx& c) {
  P p{}; In i;
  #ifdef OBS    // observations and resets only
  int k = c.choose(3); if (k == 2) k = 3;
#else
  int k = c.choose(3 + 1 + NOP);
#endif
  bool stuck = m.late == 0 || m.late == TOP;
  if (k == 0) {         // a late-sampling observation
#ifdef S7
#ifdef BITS   // any single bit changes, any single bit differs
    m.md ^= 1 << c.choose(8); m.mq = m.md ^ (1 << c.choose(8));
#else
    m.md ^= 0x5a; m.mq = m.md ^ 0x10;
#endif
    base(i, m); tick(r, m, c, i, p); m.mq = m.md;
#else
    base(i, m); i.pd_valid = 1; i.pd_incdec = 0; tick(r, m, c, i, p);
#endif
    if (!stuck) m.late++;
  } else if (k == 1) {  // an early-sampling observation
#ifdef S7
#ifdef BITS
    m.md ^= 1 << c.choose(8);
#else
    m.md ^= 0xff;
#endif
    m.mq = m.md; base(i, m); tick(r, m, c, i, p);
#else
    base(i, m); i.pd_valid = 1; i.pd_incdec = 1; tick(r, m, c, i, p);
#endif
    if (!stuck) m.late--;
  } else if (k == 2) {  // no transition: no observation, whatever the samples
#ifdef S7
    m.mq = (uint8_t)~m.md; base(i, m); tick(r, m, c, i, p); m.mq = m.md;
#else
    base(i, m); i.pd_valid = 0; i.pd_incdec = c.choose(2); tick(r, m, c, i, p);
#endif
  } else if (k == 3) {
    base(i, m); i.phase_reset = 1; tick(r, m, c, i, p); m.late = MID;
  } else {
    int b = OPS[k - 4];
    base(i, m); i.ctl_re = 1; i.ctl_r = b; tick(r, m, c, i, p);
#ifndef S7
    base(i, m); tick(r, m, c, i, p); 
    int em = b & 0x31 ? 1 : 0, es = b & 0x34 ? 1 : 0;
    if (cur.busy != (em | es << 1)) c.fail("busy reads %d right after delay operation %d", (int)cur.busy, b);
    if (em || es) c.cover(4);
    // phase observations are ignored while the delays are busy
    P q = p; int n = 0;
    while ((m.busym == 0 && m.busys == 0) && n < 12 && (em || es)) { base(i, m); tick(r, m, c, i, p); n++; }
    if (m.busym || m.busys) { base(i, m); i.pd_valid = 1; i.pd_incdec = c.choose(2); tick(r, m, c, i, p);
      if ((em && m.busym && !cur.busy) || (es && m.busys && !cur.busy)) c.fail("busy reads idle during a delay operation"); }
#endif
    c.cover(3);
  }
  settle(r, m, c, p, 24);
  check(m, c);
  int b = k >= 4 ? OPS[k - 4] : 0;
  P e{};
#ifdef S7
  e.rst = b & 1; e.mce = (b & 6) != 0; e.minc = b >> 1 & 1; e.sce = (b & 24) != 0; e.sinc = b >> 3 & 1;
  if (p.rst != e.rst || p.mce != e.mce || p.minc != e.minc || p.sce != e.sce || p.sinc != e.sinc)
    c.fail("delay operation %02x gave reset=%d, master steps=%d (up %d), slave steps=%d (up %d)", b, p.rst, p.mce, p.minc, p.sce, p.sinc);
#else
  e.mcal = b & 1; e.mrst = b >> 1 & 1; e.scal = b >> 2 & 1; e.srst = b >> 3 & 1; e.mce = (b & 0x30) != 0; e.minc = b >> 4 & 1;
  if (p.mcal != e.mcal || p.mrst != e.mrst || p.scal != e.scal || p.srst != e.srst || p.mce != e.mce || p.minc != e.minc)
    c.fail("delay operation %02x gave cal=%d,%d reset=%d,%d steps=%d (up %d)", b, p.mcal, p.scal, p.mrst, p.srst, p.mce, p.minc);
  if (cur.busy) c.fail("busy never clears");
#endif
}
