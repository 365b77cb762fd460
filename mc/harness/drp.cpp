// Clock reconfiguration port: CSRs against a primitive that answers when it likes.
struct Mon { uint8_t ready, adr, rst, lk[5], n; uint16_t dw; };
static const int AV[3] = {0x00, 0x15, ADRMASK}; static const int DV[3] = {0x0000, 0x8001, 0xffff};
static void start(Regs& r, Mon& m, Ctx& c) { dut_init(r); memset(&m, 0, sizeof m); m.rst = RST0; }
static void step(Regs& r, Mon& m, Ctx& c) {
  In i; in_init(i); Wires w; Out o; memset(&w, 0, sizeof w); memset(&o, 0, sizeof o);
  // software: one register access in a cycle
  int k = c.choose(3 + 3 + 3 + 2);
  i.rd = k == 1; i.wr = k == 2;
  i.adr_re = k >= 3 && k < 6; i.adr_r = AV[i.adr_re ? k - 3 : 1];
  i.dw_re = k >= 6 && k < 9; i.dw_r = DV[i.dw_re ? k - 6 : 1];
  i.rst_re = k >= 9; i.rst_r = k == 10;
  // primitive
  i.drdy = c.choose(2); i.dout = i.drdy ? 0xa55a : 0x1234; i.locked = c.choose(2);
#if SPLIT
  i.locked2 = c.choose(2);
#endif
  c.comb(r, i, w, o);
  memmove(m.lk + 1, m.lk, 4); m.lk[0] = i.locked; if (m.n < 5) m.n++;
  int acc = i.rd || i.wr;
  if (o.den != acc) c.fail("DEN is %d with read=%d write=%d", (int)o.den, (int)i.rd, (int)i.wr);
  if (acc && o.dwe != i.wr) c.fail("DWE is %d with read=%d write=%d", (int)o.dwe, (int)i.rd, (int)i.wr);
  if (acc && o.daddr != m.adr) c.fail("DADDR is %x, programmed %x", (unsigned)o.daddr, m.adr);
  if (i.wr && o.di != m.dw) c.fail("DI is %x, programmed %x", (unsigned)o.di, m.dw);
  if (o.ready != m.ready) c.fail("the ready flag reads %d, must be %d", (int)o.ready, m.ready);
  if (i.drdy && o.dat != i.dout) c.fail("read data %x, DO is %x", (unsigned)o.dat, (unsigned)i.dout);
#ifdef PIXLOCK
  if (o.prst != (m.rst || !i.locked)) c.fail("PLL reset is %d with reset register %d and the clock generator's lock %d", (int)o.prst, m.rst, (int)i.locked);
#else
  if (o.prst != m.rst) c.fail("primitive's reset is %d, programmed %d", (int)o.prst, m.rst);
#endif
#ifdef RATIO_FAIL
  c.fail("%s", RATIO_FAIL);
#endif
#if PIXRST
  if (o.pixrst != (i.locked ? 0 : PIXRST)) c.fail("the resets of the clock domains are %d with lock %d", (int)o.pixrst, (int)i.locked);
#endif
#if OUTRST
#if SPLIT
  int lo = i.locked2;
#else
  int lo = i.locked;
#endif
  if (o.outrst != !lo) c.fail("the reset of the output clock domain is %d with lock %d", (int)o.outrst, lo);
#endif
#ifdef LOCKED
  // two synchroniser stages, up to four cycles are tolerated
  if (m.n == 5) { bool s = true; for (int q = 0; q < 5; q++) s &= m.lk[q] == m.lk[0]; if (s && o.lock_st != m.lk[0]) c.fail("locked reads %d, the primitive's lock is %d", (int)o.lock_st, m.lk[0]); bool any = false; for (int q = 0; q < 5; q++) any |= m.lk[q] == o.lock_st; if (!any) c.fail("locked"); }
#endif
  if (acc) m.ready = 0; else if (i.drdy) { if (!m.ready) c.cover(0); m.ready = 1; }
  if (acc && i.drdy) c.cover(1);
  if (i.adr_re) m.adr = i.adr_r & ADRMASK;
  if (i.dw_re) m.dw = i.dw_r;
  if (i.rst_re) m.rst = i.rst_r;
  c.edge(0, r, i, w);
}
