// Spartan-6 DCM_CLKGEN programming: commands leave serially, one bit per clock, framed by PROGEN.
struct Mon { uint16_t cmd, sr; uint8_t left, busy, has; uint8_t ml[5], n; uint8_t gap; };
#ifdef ALLCMD
#define NCMD 1024
#define CMD(k) (k)
#else
static const int CV[4] = {0x001, 0x203, 0x155, 0x3fe};
#define NCMD 4
#define CMD(k) CV[k]
#endif
static void start(Regs& r, Mon& m, Ctx& c) { dut_init(r); memset(&m, 0, sizeof m); }
static void step(Regs& r, Mon& m, Ctx& c) {
  In i; in_init(i); Wires w; Out o; memset(&w, 0, sizeof w); memset(&o, 0, sizeof o);
  // the software sends commands and GO only when not busy; it may prepare the next command any time
#ifdef ALLCMD
  int k = m.busy ? 0 : !m.has ? 3 + c.choose(NCMD) : 1;
#else
  int k = c.choose(3 + NCMD);
  if (m.busy && (k == 1 || k == 2)) { c.prune(); return; }
#endif
  i.send = k == 1; i.go = k == 2;
  i.cmd_re = k >= 3; i.cmd_r = k >= 3 ? CMD(k - 3) : 0;
  int pd = c.choose(2), pl = c.choose(2), bl = c.choose(2);
#ifdef ALLCMD
  pd = pl = bl = 0;
#endif
  i.progdone = pd; i.pixlocked = pl; i.buflock = bl;
  c.comb(r, i, w, o);
  int en = m.left != 0 || i.go, d = m.left ? m.sr & 1 : 0;
  if (o.progen != en) c.fail("PROGEN is %d with %d bits to send and go=%d", (int)o.progen, m.left, (int)i.go);
  if (o.progdata != d) c.fail("PROGDATA is %d, must be %d (%d bits to go)", (int)o.progdata, d, m.left);
#ifdef SET_WRONG
  c.fail("%s", SET_WRONG);
#endif
  int st = o.status;
  if ((st & 1) != m.busy && !(m.busy == 2)) c.fail("busy reads %d, must be %d", st & 1, m.busy);
  if ((st >> 1 & 1) != pd || (st >> 2 & 1) != pl) c.fail("status reads %x with done %d, locked %d", st, pd, pl);
  memmove(m.ml + 1, m.ml, 4); m.ml[0] = bl; if (m.n < 5) m.n++;
  if (m.n == 5) { bool s = true; for (int q = 0; q < 5; q++) s &= m.ml[q] == bl; if (s && (st >> 3 & 1) != bl) c.fail("status reads %x, the output clock's lock is %d", st, bl); }
  if (i.send) { m.left = 10; m.sr = m.cmd; m.gap = 0; m.busy = 1; }
  else if (m.left) { m.sr >>= 1; m.left--; if (!m.left) { c.cover(0); m.sr = 0; } m.gap = 0; }
  else if (m.busy) {
    // two clocks of gap at least, sixteen at most, before software sees ready again
    m.gap++;
    if (m.gap >= 2) m.busy = 2;
    if (m.gap > 16) c.fail("busy for ever");
  }
#ifdef ALLCMD
  m.has = i.send ? 0 : m.has;
#endif
  if (i.cmd_re) { m.cmd = i.cmd_r & 0x3ff; m.has = 1; }
#ifndef ALLCMD
  m.has = 0;
#endif
  if (i.go) c.cover(1);
  c.edge(0, r, i, w);
  // once past the minimum gap software knows from the register
  if (m.busy == 2) { Out p; memset(&p, 0, sizeof p); In z; in_init(z); z.progdone = 0; Wires y; memset(&y, 0, sizeof y); comb_impl(r, z, y, p); if (!(p.status & 1)) { m.busy = 0; m.gap = 0; } }
}
