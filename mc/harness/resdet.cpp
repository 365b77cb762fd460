// Resolution measurement: after two complete frames the registers read the frame's width and height,
// also after the source changes its format; nothing is reported without a valid input.
#include "fast.hpp"
#include <utility>
struct Fmt { int h, v, hb, vb, vs, vw; };   // active, blanking, vsync start line in blanking, width
static int cyc;
static inline void one(Regs& r, Ctx& c, int de, int vs, int valid, int eh, int ev) {
  In i; Wires w; Out o; in_init(i); memset(&w, 0, sizeof w); memset(&o, 0, sizeof o);
  i.de = de; i.vsync = vs; i.valid = valid;
  c.comb(r, i, w, o);
  if (eh >= 0 && o.hres != (unsigned)eh) { c.fail("horizontal resolution reads %d, the source sends %d", (int)o.hres, eh); return; }
  if (ev >= 0 && o.vres != (unsigned)ev) { c.fail("vertical resolution reads %d, the source sends %d", (int)o.vres, ev); return; }
  EDGE();
}
// cut .. cut + len: the input is not valid
static inline void frame(Regs& r, Ctx& c, const Fmt& f, int eh, int ev, int off, int cut = -1, int len = 0) {
  int n = 0;
  for (int y = 0; y < f.v + f.vb && !c.failed; y++) for (int x = 0; x < f.h + f.hb && !c.failed; x++) {
    int de = y < f.v && x < f.h;
    int yy = x >= f.h + off % f.hb ? y : y - 1;    // vsync changes at some point of horizontal blanking
    int vs = yy >= f.v + f.vs && yy < f.v + f.vs + f.vw;
    const bool out = cut >= 0 && n >= cut && n < cut + len, zero = out && n > cut + 3 + LAG, late = n < LAG && !zero;
    one(r, c, de, vs, !out, late ? -1 : zero ? 0 : eh, late ? -1 : zero ? 0 : ev); n++;
    if (zero) c.cover(1);
  }
  if (eh >= 0) c.cover(0);
}
#if defined NB
static const Fmt FM[] = {{4095, 3, 20, 4, 1, 1}, {4, 4095, 3, 5, 1, 2}, {2048, 2049, 20, 4, 1, 2}};
static const uint64_t N_CHUNKS = sizeof FM / sizeof *FM;
#elif defined BIG
static const Fmt FM[] = {{640, 480, 160, 45, 10, 2}, {1920, 1080, 280, 45, 4, 5}, {2047, 3, 20, 4, 1, 1}, {4, 2047, 3, 5, 1, 2}, {1366, 768, 100, 30, 3, 5}, {800, 600, 256, 28, 1, 4}};
static const uint64_t N_CHUNKS = sizeof FM / sizeof *FM;
#else
#define NH (TH ? 64 : 32)
#define NW (TH ? 24 : 12)
static const uint64_t N_CHUNKS = NH * NW * 3 * 4 * 16;
#endif
#ifdef BIG
#define LONGRUN 1
#else
#define LONGRUN (k % 997 == 5 ? 300 : 1)     // some sources stay for long
#endif
static void chunk(uint64_t k, Ctx& c) {
  Regs r; dut_init(r);
#ifdef BIG
  Fmt a = FM[k], b = FM[(k + 1) % N_CHUNKS];
  if (b.h * b.v > 500000) b = FM[0];
#else
  uint64_t z = k;
  auto dim = [&](int n) { int v = (int)(z % n); z /= n; return v; };
  const int h = dim(NH) + 1, v = dim(NW) + 1, hb = dim(3) + 1, vb = dim(4), ch = dim(16);
  Fmt a = {h, v, hb, 4 + vb, vb, 1 + (int)(k % 2)};
  Fmt b = {(int)((k * 7 + ch) % (NH + 3)) + 2, (int)((k * 5 + ch * 3) % (NW + 5)) + 1, 3, 5, 1 + (int)(k & 1), 2};
#endif
  for (int q = 0; q < 4; q++) one(r, c, q & 1, 0, 0, 0, 0);
  frame(r, c, a, -1, -1, k); frame(r, c, a, -1, -1, k);
  for (int q = 0; q < LONGRUN && !c.failed; q++) frame(r, c, a, a.h, a.v, k);
  frame(r, c, b, -1, -1, k + 1); frame(r, c, b, -1, -1, k + 1);
  frame(r, c, b, b.h, b.v, k + 1);
  if (!c.failed) {                                  // lost in mid-frame, for a moment or until the frame's end
    const int tot = (b.h + b.hb) * (b.v + b.vb);
    frame(r, c, b, -1, -1, k, (int)(k * 31 % tot), k & 1 ? 5 + (int)(k % 7) : tot);
    frame(r, c, b, -1, -1, k); frame(r, c, b, -1, -1, k);
    frame(r, c, b, b.h, b.v, k);
  }
  for (int q = 0; q < 6 + LAG && !c.failed; q++) one(r, c, 0, 0, 0, q > 4 + LAG ? 0 : -1, q > 4 + LAG ? 0 : -1);
}
