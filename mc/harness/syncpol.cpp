// Sync polarity: whatever the polarity of the source's syncs, the outputs are active-high syncs, the
// data enable and the pixel of one input cycle, all with one latency.
#define HIST 5
struct Sym { uint8_t de, hs, vs, known, r, g, b, v, q; };
#define RAW0(q) ((q) * 0x155 & 0x3ff)
#define RAW1(q) (0x200 >> (q))
#define RAW2(q) (0x3ff ^ 3 << 2 * (q))
struct Mon { Sym h[HIST]; uint8_t n, lat, lat2, pol, pol0, c, prevde, known, hs, vs, tag; };
static void start(Regs& r, Mon& m, Ctx& c) { dut_init(r); memset(&m, 0, sizeof m); m.lat = m.lat2 = (1 << HIST) - 2; m.pol = m.pol0 = c.choose(4); }
static void step(Regs& r, Mon& m, Ctx& c) {
  In i; Wires w; Out o;
  in_init(i); memset(&w, 0, sizeof w); memset(&o, 0, sizeof o);
  Sym s; memset(&s, 0, sizeof s);
  s.de = c.choose(2);
  if (s.de) {
    m.tag = (m.tag + 1) % 3;
    s.r = 10 + m.tag; s.g = 0xf0 ^ m.tag; s.b = m.tag * 85;
    s.hs = m.hs; s.vs = m.vs;                            // the decoder holds the control bits during data
  } else if (m.prevde) { s.hs = s.vs = 0; m.known = 1; }  // front porch
  else {
    int k = c.choose(3); s.hs = k & 1; s.vs = k >> 1;      // k = 0, 1, 2
    int np = c.choose(4);                                  // another source: unknown until its first active line has passed
    if (np != m.pol) { m.pol = np; m.known = 0; }
  }
  s.v = !(s.de && m.tag == 2 && c.choose(2));
  m.hs = s.hs; m.vs = s.vs;
  s.known = m.known;
  m.prevde = s.de;
  i.c0 = (s.hs | s.vs << 1) ^ m.pol; i.de0 = s.de; i.de1 = s.de; i.de2 = s.de; i.valid = s.v;
  i.c1 = m.tag; i.c2 = m.tag ^ 3;
  s.q = s.de ? 1 + m.tag : s.hs | s.vs << 1 ? 4 : 0;     // raw characters, passed on unchanged
  i.raw0 = RAW0(s.q); i.raw1 = RAW1(s.q); i.raw2 = RAW2(s.q);
  i.d0 = s.b; i.d1 = s.g; i.d2 = s.r;
#ifdef EXTDE
  i.de0 = m.tag & 1; i.de_int = s.de;
#endif
  memmove(m.h + 1, m.h, sizeof(Sym) * (HIST - 1)); m.h[0] = s; if (m.n < HIST) m.n++;
  c.comb(r, i, w, o);
  if (m.n == HIST) {
    int keep = 0;
    for (int L = 1; L < HIST; L++) if (m.lat & (1 << L)) {
      const Sym& e = m.h[L];
      bool ok = o.de == e.de && o.valid == e.v && (!e.de || (o.r == e.r && o.g == e.g && o.b == e.b)) &&
                (!e.known || (o.hsync == e.hs && o.vsync == e.vs));
      if (ok) keep |= 1 << L;
    }
    if (!keep) { c.fail("de=%d hsync=%d vsync=%d rgb=(%02x,%02x,%02x) valid=%d belongs to no recent input cycle (source polarity %d)", (int)o.de, (int)o.hsync, (int)o.vsync,
                        (int)o.r, (int)o.g, (int)o.b, (int)o.valid, m.pol); return; }
    m.lat = keep;
    keep = 0;
    for (int L = 1; L < HIST; L++) if (m.lat2 & (1 << L)) if (o.raw0 == RAW0(m.h[L].q) && o.raw1 == RAW1(m.h[L].q) && o.raw2 == RAW2(m.h[L].q)) keep |= 1 << L;
    if (!keep) { c.fail("raw characters %03x %03x %03x belong to no recent input cycle", (int)o.raw0, (int)o.raw1, (int)o.raw2); return; }
    m.lat2 = keep;
    if (m.h[1].known) { c.cover(0); if (m.h[1].hs) c.cover(1); if (m.h[1].vs) c.cover(2); if (m.h[1].de) c.cover(3); if (m.pol != m.pol0) c.cover(4); }
    int L = HIST - 1; while (L > 1 && !((m.lat | m.lat2) & (1 << L))) L--;
    for (int q = L; q < HIST; q++) memset(&m.h[q], 0, sizeof(Sym));
  }
  c.edge(0, r, i, w);
}
