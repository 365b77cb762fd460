// Terminal Wishbone slave: every sequence of accesses over a small alphabet, memory as a shadow.
#ifdef SWEEP
static inline uint32_t mix(uint32_t x) { x ^= x >> 16; x *= 0x7feb352d; x ^= x >> 15; x *= 0x846ca68b; x ^= x >> 16; return x; }
enum { DEPTH = 8896 };
static const uint64_t N_CHUNKS = NV;
static void chunk(uint64_t kk, Ctx& c) {
  std::unique_ptr<Regs> own(new Regs); Regs& r = *own;
  std::vector<uint8_t> m(INITIAL, INITIAL + DEPTH);
  In i; Wires w; Out o; memset(&w, 0, sizeof w); memset(&o, 0, sizeof o);
  dut_init(r); in_init(i);
  int t = 0; uint32_t gap = 0;
  auto acc = [&](int a, int we, int v) {
    for (int n = 0; !c.failed; n++, t++) {
      i.cyc = i.stb = 1; i.we = we; i.adr = a; i.dat_w = v; i.sel = 1;
      if (t % 3 == (int)(kk % 3)) { c.comb(r, i, w, o); c.edge(1, r, i, w); }
      c.comb(r, i, w, o);
      bool k = o.ack; int d = o.dat_r;
      c.edge(t % 4 == 1 && kk & 1 ? 2 : 0, r, i, w);
      if (k) { c.cover(we ? 1 : 0); if (we) m[a] = v; else if (d != m[a]) c.fail("address 0x%x reads %02x, must be %02x", a, d, m[a]); break; }
      if (n > 8) c.fail("no acknowledge");
    }
    gap = mix(gap + kk);
    for (unsigned k = 0; k < (kk & 2 ? gap % 3 : 0) && !c.failed; k++) { in_init(i); c.comb(r, i, w, o); if (o.ack) c.fail("acknowledge without a request"); c.edge(0, r, i, w); }
  };
  const int n = c.sample ? 600 : DEPTH;
  for (int a = 0; a < n && !c.failed; a++) acc(a, 0, 0);                              // power-up content
  for (int a = 0; a < n && !c.failed; a++) { int x = (a * 4801 + kk) % DEPTH; acc(x, 1, mix(x * 31 + kk) & 255); }
  for (int a = 0; a < n && !c.failed; a++) acc(c.sample ? (a * 4801 + kk) % DEPTH : a, 0, 0);
  for (int a = 0; a < n && !c.failed; a++) { int x = mix(a + kk * 7) % DEPTH; acc(x, mix(a) & 1, a & 255); }
}
#else
struct Mon { uint8_t v[4], busy, a, we, d, wait; };
static const int AD[4] = {0, 1, 0x12c0, 8895};
static void start(Regs& r, Mon& m, Ctx& c) { dut_init(r); memset(&m, 0, sizeof m); for (int k = 0; k < 4; k++) m.v[k] = INITIAL[AD[k]]; }
static void step(Regs& r, Mon& m, Ctx& c) {
  In i; in_init(i); Wires w; Out o; memset(&w, 0, sizeof w); memset(&o, 0, sizeof o);
  i.sel = 1;
  if (!m.busy) {
    int k = c.choose(5 + 4 + 8);
    // no transfer: idle, or one of the two qualifiers missing with everything else like a write
    if (k < 5) { i.cyc = k == 1 || k == 3; i.stb = k == 2 || k == 4; i.we = k > 0; i.adr = k > 2 ? AD[0] : AD[3]; i.dat_w = 0x5a; }
    else if (k < 9) { m.busy = 1; m.a = k - 5; m.we = 0; m.d = 0; }
    else { m.busy = 1; m.a = (k - 9) & 3; m.we = 1; m.d = k - 9 < 4 ? 0x35 : 0xca; }
    m.wait = 0;
  }
  if (m.busy) { i.cyc = i.stb = 1; i.we = m.we; i.adr = AD[m.a]; i.dat_w = m.d; }
  c.comb(r, i, w, o);
  if (o.ack && !m.busy) c.fail("acknowledge without a request");
  if (m.busy) {
    if (o.ack) {
      if (m.we) { m.v[m.a] = m.d; c.cover(1); }
      else { if (o.dat_r != m.v[m.a]) c.fail("address 0x%x reads %02x, must be %02x", AD[m.a], (unsigned)o.dat_r, m.v[m.a]); c.cover(0); }
      m.busy = m.a = m.we = m.d = m.wait = 0;
    } else if (++m.wait > 4) c.fail("no acknowledge");
  }
  c.edge(0, r, i, w);
}
#endif
