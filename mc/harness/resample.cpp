// Chroma resampling units (C03: DOWN, 444 -> 422; C04: UP, 422 -> 444).
// An accepted pixel is (y, c0, c1); DOWN: c0=cb, c1=cr.  UP: c0 = cb_cr sample.
#include <vector>
#ifndef DW
#define DW 8
#endif
#if DW > 8
typedef uint16_t sample;
#else
typedef uint8_t sample;
#endif
#define SM ((1 << DW) - 1)
struct Px { sample y, a, b; uint8_t fl; };   // fl: bit0 first, bit1 last
#ifndef QMAX
#define QMAX 14
#endif
static inline void drive(In& i, const Px& p) {
  i.y = p.y; i.first = p.fl & 1; i.last = (p.fl >> 1) & 1;
#ifdef DOWN
  i.cb = p.a; i.cr = p.b;
#else
  i.cb_cr = p.a;
#endif
}
// The oldest outstanding pixel is `h` (position parity `odd`), its pair partner is `p`.
static inline void check(const Px& h, const Px& p, int odd, const Out& o, Ctx& c, bool any_chroma = false) {
  if (o.y != h.y) { c.fail("luma %02x where %02x was sent", (int)o.y, (int)h.y); return; }
#ifdef DOWN
  int e = odd ? (h.b + p.b) >> 1 : (h.a + p.a) >> 1;
  if (!any_chroma && o.cb_cr != e) { c.fail("%s %02x on a pixel whose pair averages to %02x", odd ? "cr" : "cb", (int)o.cb_cr, e); return; }
#else
  int cb = odd ? p.a : h.a, cr = odd ? h.a : p.a;
  if (o.cb != cb || o.cr != cr) { c.fail("chroma (%02x,%02x) on a pixel whose pair carries (%02x,%02x)", (int)o.cb, (int)o.cr, cb, cr); return; }
#endif
  if (o.first != (h.fl & 1)) { c.fail("first flag %d on a pixel sent with first=%d", (int)o.first, h.fl & 1); return; }
  if (o.last != ((h.fl >> 1) & 1)) { c.fail("last flag %d on a pixel sent with last=%d", (int)o.last, (h.fl >> 1) & 1); return; }
}

#if defined(SWEEP) && !defined(LONG)
#define CHUNK_LEN 4096
#define N_INPUTS (1ull << (2 * DW + 1))
static const uint64_t N_CHUNKS = N_INPUTS / CHUNK_LEN;
// pixel pairs run through every pair of chroma bytes; luma and the other chroma are scrambled
static inline Px nth(uint64_t n) {
  uint64_t pair = n >> 1; int odd = n & 1;
  uint32_t s = (uint32_t)(pair * 40503u + 77u);
  Px p;
  p.a = odd ? pair & SM : (pair >> DW) & SM;
  p.b = odd ? s & SM : (s >> DW) & SM;
  p.y = ((n * 167) >> 3) & SM;
  p.fl = ((n % CHUNK_LEN) == 0 ? 1 : 0) | ((n % CHUNK_LEN) == CHUNK_LEN - 1 ? 2 : 0);
  return p;
}
static void chunk(uint64_t k, Ctx& c) {
  Regs r; In i; Wires w; Out o;
  memset(&w, 0, sizeof w); memset(&o, 0, sizeof o);
  dut_init(r); in_init(i);
  uint64_t a = k * CHUNK_LEN, b = a + CHUNK_LEN, out = a, in = a;
  int idle = 0;
  while (out < b) {
    bool has = in < b;
    Px p{};
    if (has) p = nth(in);
    i.valid = has; i.ready = 1;
    drive(i, p);
    c.comb(r, i, w, o);
    if (o.valid) {
      if (out >= in) { c.fail("a pixel came out that was never sent"); return; }
      check(nth(out), nth(out ^ 1), out & 1, o, c);
      c.cover(0);
      if (c.failed) return;
      out++; idle = 0;
    } else if (++idle > 64) { c.fail("pixel %llu never came out", (unsigned long long)out); return; }
    if (has && o.ready) in++;
    c.edge(0, r, i, w);
  }
}
#elif defined(LONG)
// long streams: packets of 1 to 70000 items, long idle and stalled phases
#ifndef LONG_ITEMS
#define LONG_ITEMS (TH ? 3000000 : 400000)
#endif
static const uint64_t N_CHUNKS = 8;
static inline uint64_t rnd(uint64_t x) { x *= 0x9E3779B97F4A7C15ull; x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 32; return x; }
static inline Px px(uint64_t n) { uint64_t z = rnd(n); Px p; p.y = z & SM; p.a = z >> 16 & SM; p.b = z >> 32 & SM; p.fl = 0; return p; }
static void chunk(uint64_t k, Ctx& c) {
  Regs r; In i; Wires w; Out o;
  memset(&w, 0, sizeof w); memset(&o, 0, sizeof o);
  dut_init(r); in_init(i);
  static const int LEN[8] = {
#ifdef DOWN
    2, 4, 640, 6, 1920, 4098, 256, 70000
#else
    1, 2, 640, 3, 1920, 4097, 257, 70000
#endif
  };
  uint64_t in = 0, out = 0, pos = 0, pk = 0, idle = 0;
  bool held = false; int stalled = 0;
  const uint64_t end = c.sample ? 600 : LONG_ITEMS;
  std::vector<uint8_t> fl(1 << 8);
  for (uint64_t t = 0; out < end; t++) {
    uint64_t z = rnd(t + k * 977);
    int v = k == 2 ? (t / 5) & 1 : k == 3 ? z & 1 : k == 5 ? (t >> 12) & 1 : k == 7 ? !(z & 6) : 1;
    int rd = k == 1 ? (t / 3) & 1 : k == 3 ? (z >> 8) & 1 : k == 4 ? (t >> 12) & 1 : k == 6 ? t % 7 != 0 : k == 7 ? (z >> 8 & 3) != 0 : 1;
    if (held
#ifdef DOWN
        || pos
#endif
       ) v = 1;
    if (in >= end) v = 0, rd = 1;
    int f = 0;
    in_init(i);
    if (v) {
      f = (pos == 0) | (pos == (uint64_t)LEN[pk % 8] - 1 || in == end - 1) << 1;
      Px p = px(in); p.fl = f; drive(i, p);
    }
    i.valid = v; i.ready = rd;
    c.comb(r, i, w, o);
    if (o.valid) {
      if (out >= in) { c.fail("an item came out that was never sent"); return; }
      Px h = px(out); h.fl = fl[out & 255];
      check(h, px(out ^ 1), out & 1, o, c);
      if (c.failed) return;
      c.cover(0);
    } else if (stalled) { c.fail("valid was withdrawn before item %llu was taken", (unsigned long long)out); return; }
    bool acc = v && o.ready;
    if ((o.valid && rd) || acc) idle = 0;
    else if (rd && (v || in > out)) { if (++idle > 64) { if (in >= end && 0) return; c.fail("no progress after %llu items", (unsigned long long)out); return; } }
    stalled = o.valid && !rd;
    if (o.valid && rd) out++;
    held = v && !acc;
    if (acc) {
      if (in - out >= 200) { c.fail("items are lost"); return; }
      fl[in & 255] = f; in++;
      if (f & 2) { pos = 0; pk++; } else pos++;
    }
    c.edge(0, r, i, w);
  }
}
#else
static const Px ALPHA[] = {{0x12, 0x10, 0x81, 0}, {0xe5, 0xf1, 0x3d, 0}};
struct Mon {
  Px q[QMAX]; uint8_t n;          // accepted, not delivered (plus the delivered partner of an odd head)
  Px prev; uint8_t odd;           // the partner of the head when the head is odd
  uint8_t inodd;                  // parity of the next pixel to be accepted
  Px hold; uint8_t holding, stalled, noout, noacc, inframe, bub;
};
static void start(Regs& r, Mon& m, Ctx& c) { dut_init(r); memset(&m, 0, sizeof m); }
static void step(Regs& r, Mon& m, Ctx& c) {
  In i; Wires w; Out o;
  in_init(i); memset(&w, 0, sizeof w); memset(&o, 0, sizeof o);
#ifdef HAS_RESET
  if (c.choose(2)) {              // the reset input drops everything and restarts the pairing
    i.reset = 1;
    c.comb(r, i, w, o);
    c.edge(0, r, i, w);
    memset(&m, 0, sizeof m);
    c.cover(4);
    return;
  }
#endif
  Px p{}; bool has = false;
  if (m.holding) { p = m.hold; has = true; }
  else {
#ifdef DOWN
    // frames: an even number of pixels, the first one marked `first`; idle cycles between frames
    // (and, BUBBLES, inside them)
    int opts = m.inframe
#ifdef BUBBLES
      ? 5 : 3;
#else
      ? 4 : 3;
#endif
    int k = c.choose(opts);
    if (!m.inframe) { if (k) { p = ALPHA[k - 1]; p.fl = 1; has = true; } }
    else if (k < 2) { p = ALPHA[k]; has = true; }
    else if (k < 4) { if (!m.inodd) { c.prune(); return; } p = ALPHA[k - 2]; p.fl = 2; has = true; }
#else
    int k = c.choose(4);
    if (k) { p = ALPHA[(k - 1) & 1]; p.fl = k == 3 ? 2 : 0; has = true; if (!m.inframe) p.fl |= 1; }
#endif
  }
  int rdy = c.choose(2);
  i.valid = has; i.ready = rdy;
  if (has) drive(i, p);
  c.comb(r, i, w, o);
  bool acc = has && o.ready;
  if (o.valid) {
    if (!m.n) { c.fail("a pixel is offered that was never accepted"); return; }
    if (!m.odd && m.n < 2) {
#ifdef DOWN
      if (!(m.q[0].fl & 4))
#endif
      { c.fail("a pixel is offered before its pair is complete"); return; }
    }
#ifdef DOWN
    check(m.q[0], m.odd ? m.prev : m.q[1], m.odd, o, c, m.q[0].fl & 4);
    if (m.q[0].fl & 4) c.known(0);
#else
    check(m.q[0], m.odd ? m.prev : m.q[1], m.odd, o, c);
#endif
    if (c.failed) return;
  } else if (m.stalled) { c.fail("valid was withdrawn before the pixel was taken"); return; }
  m.stalled = o.valid && !rdy;
  if (m.stalled) c.cover(2);
  if (rdy && !o.valid && m.n >= 2) { if (++m.noout > 24) { c.fail("pixels are stuck in the unit"); return; } } else m.noout = 0;
  if (rdy && has && !o.ready) { if (++m.noacc > 24) { c.fail("the unit stopped accepting"); return; } } else m.noacc = 0;
#ifdef DOWN
  // finding C03_bubble: the pairing slips when the producer pauses inside a frame
  if (m.inframe && !has && o.ready) {
#ifdef KF_C03_bubble
    m.bub = 1;
    for (int k = m.n - 1; k >= 0; k--) { m.q[k].fl |= 4; if (m.q[k].fl & 1) break; }
#endif
  }
#endif
  if (o.valid && rdy) {
    m.prev = m.q[0]; m.odd ^= 1;
    memmove(m.q, m.q + 1, sizeof(Px) * (QMAX - 1)); memset(&m.q[QMAX - 1], 0, sizeof(Px)); m.n--;
    if (!m.odd) memset(&m.prev, 0, sizeof m.prev);
    c.cover(1);
  }
  if (acc) {
    if (m.n == QMAX) { c.fail("accepted more pixels than were ever delivered"); return; }
    if (p.fl & 1) m.bub = 0;
    if (m.bub) p.fl |= 4;
    m.q[m.n++] = p; m.inodd ^= 1;
    m.inframe = !((p.fl >> 1) & 1);
    if (!m.inframe) c.cover(3);
  }
  m.holding = has && !acc;
  if (m.holding) m.hold = p; else memset(&m.hold, 0, sizeof m.hold);
  c.edge(0, r, i, w);
}
#endif
