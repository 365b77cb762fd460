// EDID over I2C.  A reference slave decides, for every master action, what the device may drive.
// The master holds SCL/SDA for Q cycles per quarter of a bit.
#ifndef ROMSZ
#define ROMSZ 256
#endif
static inline uint8_t rom(int a);
#ifdef SW
// the memory as software last wrote it, and its next access
static thread_local uint8_t MEMV[ROMSZ];
static thread_local struct { int op, adr, val; } PEND;         // op: 1 write, 2 read
static inline uint8_t rom(int a) { return MEMV[a % ROMSZ]; }
#elif defined(DEFROM)
static const uint8_t ROM[ROMSZ] = {DEFROM};
static inline uint8_t rom(int a) { return ROM[a % ROMSZ]; }
#else
static inline uint8_t rom(int a) { return (uint8_t)((a % ROMSZ) * 167 + ((a % ROMSZ) >> 3) * 29 + 0x5b); }
#endif
#ifndef ABM
#define ABM 0xff
#endif
#ifndef Q
#define Q 96
#endif
enum { IDLE, ADDR, AACK, OFFS, OACK, RD, RACK, DEAD, DONE };  // DEAD: not addressed until the next START
struct Mon {
  uint8_t ph, bit, sh, rd, off, offk, scl, sda, en, byte, drv; // drv: expected drive now
  uint8_t notif, nb, ab;
};
#define DRV(o) (o.oe && !o.o)
static const char* PHN[] = {"IDLE", "ADDR", "AACK", "OFFS", "OACK", "RD", "RACK", "DEAD", "DONE"};
static inline void hold(Regs& r, Mon& m, Ctx& c, int n, int expect, const char* what) {
  // expect: -1 unknown (device may change), 0 released, 1 driven low, for the last cycles of the interval
  In i; Wires w; Out o; memset(&w, 0, sizeof w); memset(&o, 0, sizeof o);
  in_init(i);
  int first = -1;
  if (c.trace && getenv("EDID_DEBUG")) fprintf(stderr, "%s bit %d scl %d sda %d en %d: %s expect %d\n", PHN[m.ph], m.bit, m.scl, m.sda, m.en, what, expect);
  for (int k = 0; k < n && !c.failed; k++) {
    bool bus = m.sda;
    c.comb(r, i, w, o);
    bool d = DRV(o);
    if (first < 0) first = d;
    // a change of the drive while SCL is high would be a START or STOP to everybody else
    if (m.scl && k > 0 && (int)d != first) { c.fail("the device changes SDA while SCL is high (%s)", what); return; }
    if (expect >= 0 && k >= n - 2 && (int)d != expect) { c.fail("%s: device %s SDA, expected %s", what, d ? "drives" : "releases", expect ? "driven" : "released"); return; }
    bus = m.sda && !d;
    i.scl = m.scl ^ INVS; i.sda = bus ^ INVD; i.en = m.en; i.notif = m.notif ^ INVN;
    // the bus value settles combinationally with the drive
    c.comb(r, i, w, o);
    if (o.hpd_en != m.en && HASEN) { c.fail("hpd_en pad %d, register %d", (int)o.hpd_en, m.en); return; }
    if (o.notif_st != (HASNOTIF ? m.notif : 1) && k > 4) { c.fail("hpd_notif reads %d, pad %d", (int)o.notif_st, m.notif); return; }
#ifdef SW
    if (PEND.op == 2 && k == 1 && o.rdat != PEND.val) { c.fail("software reads %02x at address %d, it wrote %02x", (unsigned)o.rdat, PEND.adr, PEND.val); return; }
    if (k == 1) PEND.op = 0;
    i.we = PEND.op == 1 && k == 0; i.adr = PEND.adr; i.wdat = PEND.val;
    c.comb(r, i, w, o);
#endif
    c.edge(0, r, i, w);
  }
}
static inline void after(Regs& r, Mon& m, Ctx& c, int expect, const char* what) { hold(r, m, c, 2 * Q, expect, what); }
static inline void mstart(Regs& r, Mon& m, Ctx& c) {      // (repeated) START, ends with SCL low
  if (!m.sda || !m.scl) {
    m.sda = 1; hold(r, m, c, 2 * Q, 0, "before a START"); m.scl = 1; hold(r, m, c, Q, 0, "before a START"); }
  m.sda = 0; hold(r, m, c, Q, 0, "START");
  m.scl = 0; hold(r, m, c, 2 * Q, 0, "START");
  m.ph = m.en ? ADDR : DEAD; m.bit = 0; m.sh = 0;
}
static inline void mstop(Regs& r, Mon& m, Ctx& c) {
  m.sda = 0; hold(r, m, c, Q, -1, "STOP"); m.scl = 1; hold(r, m, c, Q, -1, "STOP"); m.sda = 1; hold(r, m, c, 2 * Q, 0, "STOP");
  m.ph = IDLE;
}
// one clock with the master putting v on SDA; returns the bus value at the middle of SCL high
static inline void mclock(Regs& r, Mon& m, Ctx& c, int v, int expect, int next, const char* what) {
  m.sda = v; hold(r, m, c, 2 * Q, expect, what);
  m.scl = 1; hold(r, m, c, 2 * Q, expect, what);
  m.scl = 0; hold(r, m, c, 2 * Q, next, what);
  m.sda = 1;
}
static inline int rdbit(const Mon& m) { return !(rom(m.off) >> (7 - m.bit) & 1); }   // drive of the current data bit
// one clock of the protocol; v: what the master sends where it sends
static inline void bitstep(Regs& r, Mon& m, Ctx& c, int v) {
  switch (m.ph) {
  case ADDR: case OFFS: {
    bool last = m.bit == 7; uint8_t sh = m.sh << 1 | v;
    bool ack = last && m.en && (m.ph == OFFS || (sh >> 1) == 0x50);
    mclock(r, m, c, v, 0, ack, "receiving");
    m.sh = sh;
    if (++m.bit == 8) {
      m.bit = 0; m.sh = 0; m.ab = 0;
      if (m.ph == ADDR) { if (ack) { m.ph = AACK; m.rd = sh & 1; c.cover(1); } else { m.ph = DEAD; c.cover(2); } }
      else { m.ph = OACK; m.off = sh % ROMSZ; m.offk = 1; m.nb = 0; c.cover(3); }
    }
    break; }
  case AACK: {
    m.bit = 0;
    int next = m.rd ? (m.offk ? rdbit(m) : -1) : 0;
    mclock(r, m, c, 1, 1, next, "address acknowledge");
    m.ph = m.rd ? RD : OFFS; m.bit = 0; m.sh = 0;
    break; }
  case OACK: mclock(r, m, c, 1, 1, 0, "offset acknowledge"); m.ph = DONE; break;
  case RD: {
    int e = rdbit(m);
    int next; { Mon n = m; n.bit++; next = n.bit == 8 ? 0 : rdbit(n); }
    mclock(r, m, c, 1, e, next, "data bit");
    c.cover(4);
    if (++m.bit == 8) { m.bit = 0; m.ph = RACK; }
    break; }
  case RACK: {
    int o2 = (m.off + 1) % ROMSZ; int e = !(rom(o2) >> 7 & 1);
    mclock(r, m, c, v, 0, v ? 0 : e, "master acknowledge");
    m.off = o2; m.bit = 0; m.nb++;
    if (v) { m.ph = DEAD; c.cover(6); } else { m.ph = RD; c.cover(5); }
    break; }
  case DEAD: mclock(r, m, c, v, 0, 0, "not addressed"); if (++m.bit == 9) m.bit = 0; break;
  case DONE:                           // bytes after the offset change nothing; whether they are acknowledged is open
    if (m.bit < 8) { mclock(r, m, c, v, 0, m.bit == 7 ? -1 : 0, "byte after the offset"); m.bit++; }
    else { mclock(r, m, c, 1, -1, 0, "end of a byte after the offset"); m.bit = 0; m.ph = DEAD; c.cover(8); }
    break;
  }
}
static inline void begin(Regs& r, Mon& m, Ctx& c, int phase) {
  dut_init(r); memset(&m, 0, sizeof m); m.scl = m.sda = m.en = m.notif = 1; m.offk = 1;
  hold(r, m, c, 4 * Q + phase, -1, "power-up"); hold(r, m, c, 10, 0, "idle");
}
#ifdef SWEEP
static inline void send(Regs& r, Mon& m, Ctx& c, int b) { for (int k = 7; k >= 0 && !c.failed; k--) bitstep(r, m, c, b >> k & 1); }
#ifdef SW
// software changes bytes before and during transfers; what is read is what was last written
static const uint64_t N_CHUNKS = TH ? 2048 : 256;
static void chunk(uint64_t k, Ctx& c) {
  Regs r; Mon m;
  PEND.op = 0;
  for (int a = 0; a < ROMSZ; a++) MEMV[a] = (uint8_t)(a * 167 + (a >> 3) * 29 + 0x5b);
  begin(r, m, c, (k * 23) % 64);
  int n = 0;
  auto put = [&](int a) { PEND.op = 1; PEND.adr = a % ROMSZ; PEND.val = (k * 31 + n++ * 57 + a) & 255; MEMV[PEND.adr] = PEND.val; };
  const int off = k * 37 % 256;
  auto all = [&]() { for (int a = 0; a < ROMSZ && !c.failed; a++) { put(a); hold(r, m, c, 2, 0, "software writes"); } };
  for (int q = 0; q < (int)(k % 23) && !c.failed; q++) { put(off + q * (1 + k % 5)); hold(r, m, c, 2, 0, "software writes"); }
  if (k % 16 == 7) all();
  for (int rep = 0; rep < 2 && !c.failed; rep++) {
    mstart(r, m, c);
    for (int b = 7; b >= 0 && !c.failed; b--) { if (rep && !m.rd) put(off + b * 3); bitstep(r, m, c, 0xA0 >> b & 1); }
    bitstep(r, m, c, 1);
    for (int b = 7; b >= 0 && !c.failed; b--) { if ((k + b) & 1) put(off + 16 - b); bitstep(r, m, c, off >> b & 1); }
    bitstep(r, m, c, 1);
    if (k & 1) mstop(r, m, c);
    mstart(r, m, c); send(r, m, c, 0xA1); bitstep(r, m, c, 1);
    const int N = k % 16 == 7 ? ROMSZ + 2 : 5;
    for (int b = 0; b < N && !c.failed; b++) {
      for (int q = 0; q < 8 && !c.failed; q++) { if (b % 3 == 1 && q < 4) put(off + b + 3 + q); bitstep(r, m, c, 1); }   // bytes further on, and some behind
      bitstep(r, m, c, b == N - 1);
    }
    mstop(r, m, c);
    for (int q = 0; q < 20 && !c.failed; q++) { PEND.op = 2; PEND.adr = (off + q * 13) % ROMSZ; PEND.val = MEMV[PEND.adr]; hold(r, m, c, 3, 0, "software reads"); c.cover(1); }
  }
  c.cover(0);
}
#else
static const uint64_t N_CHUNKS = 256 + 256 + 4 + 256;
static void chunk(uint64_t k, Ctx& c) {
  Regs r; Mon m;
  begin(r, m, c, (k * 23) % 64);
  if (k < 256) {                       // every address byte
    mstart(r, m, c); send(r, m, c, k); bool rd = m.ph == AACK && m.rd; bitstep(r, m, c, 1);
    if (rd) for (int q = 0; q < 9; q++) bitstep(r, m, c, 1);
    mstop(r, m, c);
    // and the device still works
    mstart(r, m, c); send(r, m, c, 0xA0); if (m.ph != AACK && !c.failed) c.fail("address not recognised"); bitstep(r, m, c, 1); send(r, m, c, (k * 5) & 0xff); bitstep(r, m, c, 1);
    mstart(r, m, c); send(r, m, c, 0xA1); bitstep(r, m, c, 1); for (int q = 0; q < 8; q++) bitstep(r, m, c, 1); bitstep(r, m, c, 1); mstop(r, m, c);
  } else if (k < 512) {                // every offset, some bytes in sequence; then reading goes on where it stopped
    mstart(r, m, c); send(r, m, c, 0xA0); bitstep(r, m, c, 1); send(r, m, c, k - 256); bitstep(r, m, c, 1);
    if (k & 1) mstop(r, m, c);
    for (int rep = 0; rep < 2; rep++) {
      mstart(r, m, c); send(r, m, c, 0xA1); bitstep(r, m, c, 1);
      for (int b = 0; b < 3; b++) { for (int q = 0; q < 8; q++) bitstep(r, m, c, 1); bitstep(r, m, c, b == 2); }
      mstop(r, m, c);
    }
  } else if (k >= 516) {               // every byte after an offset, then a read from that offset
    int b = k - 516;
    mstart(r, m, c); send(r, m, c, 0xA0); bitstep(r, m, c, 1); send(r, m, c, b * 3); bitstep(r, m, c, 1);
    send(r, m, c, b); bitstep(r, m, c, 1); for (int q = 0; q < 9; q++) bitstep(r, m, c, 1);
    if (b & 1) mstop(r, m, c);
    mstart(r, m, c); send(r, m, c, 0xA1); bitstep(r, m, c, 1); for (int q = 0; q < 8; q++) bitstep(r, m, c, 1); bitstep(r, m, c, 1); mstop(r, m, c);
  } else {                             // the whole memory and around its end in one transfer
    mstart(r, m, c); send(r, m, c, 0xA0); bitstep(r, m, c, 1); send(r, m, c, (k - 512) * 77); bitstep(r, m, c, 1);
    mstart(r, m, c); send(r, m, c, 0xA1); bitstep(r, m, c, 1);
    for (int b = 0; b < ROMSZ + 5 && !c.failed; b++) { for (int q = 0; q < 8; q++) bitstep(r, m, c, 1); bitstep(r, m, c, b == ROMSZ + 4); }
    mstop(r, m, c);
  }
#ifdef DEFROM
  if (k == 0) for (int b = 0; b < ROMSZ / 128; b++) {
    int s = 0; for (int q = 0; q < 128; q++) s += ROM[b * 128 + q];
    if (s & 255) c.fail("checksum of block %d of the default EDID is wrong", b);
    static const uint8_t HD[8] = {0, 255, 255, 255, 255, 255, 255, 0};
    if (b == 0 && memcmp(ROM, HD, 8)) c.fail("the default EDID has no valid header");
  }
#endif
  c.cover(0);
}
#endif
#else
// Every sequence of master actions at bit level; bytes from an alphabet, aborted anywhere.
static const uint8_t AB[] = {0xA0, 0xA1, 0xA2, 0x51}, OB[] = {0x00, 0xFE, 0x81};
static void start(Regs& r, Mon& m, Ctx& c) { begin(r, m, c, c.choose(2) * 31); }
static void step(Regs& r, Mon& m, Ctx& c) {
  c.cover(0);
  bool release = m.ph != RACK && !(m.ph == OFFS && m.bit == 7) && !(m.ph == RD && rdbit(m)) && !(m.ph == AACK || m.ph == OACK) && (m.ph == DONE ? m.bit < 8 : m.ph == DEAD ? !m.bit || m.bit == 8 : m.ph != ADDR && m.ph != OFFS || (!m.ab && (ABM >> m.bit & 1)));   // the master can change SDA
#if HASEN
  // the host is plugged or unplugged: anywhere in a transfer once, then between transfers
  if (!m.ab && (m.ph == IDLE || m.ph == DEAD ? m.bit == 0 : m.ph == ADDR || m.ph == OFFS ? (ABM >> m.bit & 1) : true) && c.choose(2)) {
    m.en ^= 1; m.ab = 1;
    hold(r, m, c, 2 * Q, m.en ? -1 : 0, "enable change");
    if (m.ph != IDLE) m.ph = DEAD;
    m.bit = m.sh = m.byte = 0; c.cover(7);
    return;
  }
#endif
  if (m.ph == IDLE) { mstart(r, m, c); return; }
  int act = release ? c.choose(3) : 0;
  if (act && (m.ph == ADDR || m.ph == OFFS)) m.ab = 1;
  if (act == 1) { mstart(r, m, c); return; }
  if (act == 2) { mstop(r, m, c); return; }
  int v = 1;
  if (m.ph == ADDR || m.ph == OFFS) {
    if (m.bit == 0) m.byte = m.ph == ADDR ? (m.nb >= 3 ? AB[2 * c.choose(2)] : AB[c.choose(4)]) : OB[c.choose(3)];
    v = m.byte >> (7 - m.bit) & 1;
  } else if (m.ph == RACK) v = m.nb >= 2 ? 1 : c.choose(2);
  else if (m.ph == DEAD) {
    if (m.bit == 0) m.byte = 0xA0;
    v = m.bit == 8 ? 1 : m.byte >> (7 - m.bit) & 1;
  }
  else if (m.ph == DONE) {
    static const uint8_t WB[] = {0xA1, 0xA0, 0x5C};
    if (m.bit == 0) m.byte = WB[c.choose(3)];
    v = m.byte >> (7 - m.bit) & 1;
  }
  bitstep(r, m, c, v);
  if (m.bit == 0) m.byte = 0;
}
#endif
