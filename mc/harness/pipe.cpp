// A valid/ready stream unit with a per-item reference function.
// The unit header supplies: struct V, static V nth(uint64_t), static void drive(In&, const V&),
// static bool check(const V&, const Out&, Ctx&) (calls fail), and for bfs mode N_ITEMS, item(int).
#include UNIT
#include <vector>

#if defined(SWEEP) && !defined(LONG)
#ifndef CHUNK_LEN
#define CHUNK_LEN 4096
#endif
static const uint64_t N_CHUNKS = (N_INPUTS + CHUNK_LEN - 1) / CHUNK_LEN;
static void chunk(uint64_t k, Ctx& c) {
  Regs r; In i; Wires w; Out o;
  memset(&w, 0, sizeof w); memset(&o, 0, sizeof o);
  dut_init(r); in_init(i);
  uint64_t a = k * CHUNK_LEN, b = std::min<uint64_t>(a + CHUNK_LEN, N_INPUTS), out = a;
  uint64_t in = a;
  int idle = 0;
  while (out < b) {
    V v{};
    bool has = in < b;
    if (has) v = nth(in);
    i.valid = has; i.ready = 1;
    drive(i, v);
    c.comb(r, i, w, o);
    if (o.valid) {
      if (out >= in) { c.fail("an item came out that was never sent"); return; }
      check(nth(out), o, c);
      c.cover(0);
      if (c.failed) return;
      out++; idle = 0;
    } else if (++idle > 64) { c.fail("item %llu never came out (lost or stuck)", (unsigned long long)out); return; }
    if (has && o.ready) in++;
    c.edge(0, r, i, w);
  }
}
#elif defined(LONG)
// long streams: packets of 1 to 70000 items, long idle and stalled phases
#ifndef LONG_ITEMS
#define LONG_ITEMS (TH ? 3000000 : 400000)
#endif
static const uint64_t N_CHUNKS = 8;
static inline uint64_t rnd(uint64_t x) { x *= 0x9E3779B97F4A7C15ull; x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 32; return x; }
static void chunk(uint64_t k, Ctx& c) {
  Regs r; In i; Wires w; Out o;
  memset(&w, 0, sizeof w); memset(&o, 0, sizeof o);
  dut_init(r); in_init(i);
  static const int LEN[8] = {1, 2, 640, 3, 1920, 4097, 257, 70000};
  uint64_t in = 0, out = 0, pos = 0, pk = 0, idle = 0;
  bool held = false; int stalled = 0;
  const uint64_t end = c.sample ? 600 : LONG_ITEMS;
  std::vector<uint8_t> fl(1 << 8);
  for (uint64_t t = 0; out < end; t++) {
    uint64_t z = rnd(t + k * 977);
    int v = k == 2 ? (t / 5) & 1 : k == 3 ? z & 1 : k == 5 ? (t >> 12) & 1 : k == 7 ? !(z & 6) : 1;
    int rd = k == 1 ? (t / 3) & 1 : k == 3 ? (z >> 8) & 1 : k == 4 ? (t >> 12) & 1 : k == 6 ? t % 7 != 0 : k == 7 ? (z >> 8 & 3) != 0 : 1;
    if (held) v = 1;
    if (in >= end) v = 0, rd = 1;
    int f = 0;
    in_init(i);
    if (v) {
      f = (pos == 0) | (pos == (uint64_t)LEN[pk % 8] - 1 || in == end - 1) << 1;
      drive(i, nth(rnd(in) % N_INPUTS)); i.first = f & 1; i.last = f >> 1;
    }
    i.valid = v; i.ready = rd;
    c.comb(r, i, w, o);
    if (o.valid) {
      if (out >= in) { c.fail("an item came out that was never sent"); return; }
      check(nth(rnd(out) % N_INPUTS), o, c);
      if (c.failed) return;
      if (o.first != (fl[out & 255] & 1) || o.last != fl[out & 255] >> 1) { c.fail("item %llu: first=%d last=%d, sent with %d %d", (unsigned long long)out, (int)o.first, (int)o.last, fl[out & 255] & 1, fl[out & 255] >> 1); return; }
      if (c.failed) return;
      c.cover(0);
    } else if (stalled) { c.fail("valid was withdrawn before item %llu was taken", (unsigned long long)out); return; }
    bool acc = v && o.ready;
    if ((o.valid && rd) || acc) idle = 0;
    else if (rd && (v || in > out)) { if (++idle > 64) { if (in >= end && 0) return; c.fail("no progress after %llu items", (unsigned long long)out); return; } }
    stalled = o.valid && !rd;
    if (o.valid && rd) out++;
    held = v && !acc;
    if (acc) {
      if (in - out >= 200) { c.fail("items are lost"); return; }
      fl[in & 255] = f; in++;
      if (f & 2) { pos = 0; pk++; } else pos++;
    }
    c.edge(0, r, i, w);
  }
}
#else
// every valid/ready schedule
#ifndef QMAX
#define QMAX 24
#endif
#ifndef STALL
#define STALL 40
#endif
struct Mon {
  uint8_t q[QMAX]; uint8_t n;      // items inside the unit, oldest first: index | first<<6 | last<<7
  uint8_t hold;                    // item the producer is holding (0: none, else 1+code)
  uint8_t stalled;                 // consumer refused the offered item last cycle
  uint8_t noout, noacc;
};
static void start(Regs& r, Mon& m, Ctx& c) { dut_init(r); memset(&m, 0, sizeof m); }
static void step(Regs& r, Mon& m, Ctx& c) {
  In i; Wires w; Out o;
  in_init(i); memset(&w, 0, sizeof w); memset(&o, 0, sizeof o);
  int code = 0;
  if (m.hold) code = m.hold;
#ifdef FEW
  else { static const int codes[4] = {0, 1 + (0 | 1 << 6), 1 + (1 | 2 << 6), 1 + 1}; code = codes[c.choose(4)]; }
#else
  else { int k = c.choose(1 + N_ITEMS * N_FL); if (k) { k--; code = 1 + ((k / N_FL) | ((k % N_FL) << 6)); } }
#endif
  int rdy = c.choose(2);
  i.valid = code != 0; i.ready = rdy;
  if (code) {
    drive(i, item((code - 1) & 63));
    i.first = ((code - 1) >> 6) & 1; i.last = ((code - 1) >> 7) & 1;
  }
  c.comb(r, i, w, o);
  bool acc = code && o.ready;
  if (o.valid) {
    if (!m.n) { c.fail("an item is offered that was never accepted"); return; }
    int h = m.q[0];
    check(item(h & 63), o, c);
    if (c.failed) return;
    if (o.first != ((h >> 6) & 1)) { c.fail("first flag %d on an item sent with first=%d", (int)o.first, (h >> 6) & 1); return; }
    if (o.last != ((h >> 7) & 1)) { c.fail("last flag %d on an item sent with last=%d", (int)o.last, (h >> 7) & 1); return; }
  } else if (m.stalled) { c.fail("valid was withdrawn before the item was taken"); return; }
  m.stalled = o.valid && !rdy;
  if (m.stalled) c.cover(2);
  // progress
  if (rdy && !o.valid && m.n) { if (++m.noout > STALL) { c.fail("items are stuck in the unit"); return; } } else m.noout = 0;
  if (rdy && code && !o.ready) { if (++m.noacc > STALL) { c.fail("the unit stopped accepting"); return; } } else m.noacc = 0;
  if (o.valid && rdy) {
    memmove(m.q, m.q + 1, QMAX - 1); m.q[QMAX - 1] = 0; m.n--;
    c.cover(1);
  }
  if (acc) {
    if (m.n == QMAX) { c.fail("accepted more items than were ever delivered (items lost)"); return; }
    m.q[m.n++] = code - 1;
  }
  m.hold = (code && !acc) ? code : 0;
  if (code && !acc) c.cover(3);
  c.edge(0, r, i, w);
}
#endif
