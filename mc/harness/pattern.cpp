// Test patterns: the n-th accepted pixel is the pattern's n-th pixel, whatever the stalls.
struct Mon { uint16_t hres, x; uint8_t bar, line, on, started, held; uint32_t px; };
static const uint32_t BAR[8] = {0xffffff, 0xffff00, 0x00ffff, 0x00ff00, 0xff00ff, 0xff0000, 0x0000ff, 0x000000};
#if KIND != 0                            // an even number of pixels a line
static const int HR[] = {8, 16, 24, 40, 64, 2040, 2560, 4088, 10, 20, 1366, 1050, 4094};
#else                                    // not only multiples of 8
static const int HR[] = {8, 16, 24, 40, 64, 2040, 2560, 4088, 9, 15, 20, 23, 1366, 1050, 4095};
#endif
#define NL (sizeof HR / sizeof *HR)
#define STEP (KIND ? 2 : 1)                // every width from 8 on, and those above
#define NH (NL + (TH ? 1200 : 280) / STEP)
#define HRES(k) ((k) < (int)NL ? HR[k] : 8 + ((k) - (int)NL) * STEP)
static inline uint32_t want(const Mon& m) {
#if KIND == 0
  int b = m.x / (m.hres / 8); return BAR[b > 7 ? 7 : b];   // the last bar takes the rest
#elif KIND == 1
  return m.x & 1 ? 0xffffff : 0;
#else
  return (m.x ^ m.line) & 1 ? 0xffffff : 0;
#endif
}
static void start(Regs& r, Mon& m, Ctx& c) { dut_init(r); memset(&m, 0, sizeof m); const int k = c.choose(NH); m.hres = HRES(k); }
static void step(Regs& r, Mon& m, Ctx& c) {
  In i; in_init(i); Wires w; Out o; memset(&w, 0, sizeof w); memset(&o, 0, sizeof o);
  i.hres = m.hres; if (!m.on) m.on = c.choose(2);
  i.valid = m.on; i.ready = c.choose(2);
  c.comb(r, i, w, o);
  uint32_t p = (uint32_t)o.r << 16 | (uint32_t)o.g << 8 | (uint32_t)o.b;
  if (m.started && !o.valid) c.fail("the pattern stops");
  if (!m.on && o.valid) c.fail("pixels without parameters");
  if (m.held && p != m.px) c.fail("a waiting pixel changes from %06x to %06x", m.px, p);
  m.held = 0; m.px = 0;
  if (o.valid) {
    m.started = 1;
    if (p != want(m)) c.fail("pixel %d of line %d is %06x, must be %06x", m.x, m.line, p, want(m));
    if (i.ready) {
      c.cover(0);
      if (++m.x == m.hres) { m.x = 0; m.line ^= 1; c.cover(1); }
    } else { m.held = 1; m.px = p; }
  }
  else if (m.on && ++m.bar > 4) c.fail("no pixels");
  c.edge(0, r, i, w);
}
