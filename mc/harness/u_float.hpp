// Half-precision units.  Values are exact integers times a power of two; results are rounded
// towards zero.
struct V { int64_t a, b, c; };
struct HalfV { int64_t m; int e; };            // value m * 2^e
static inline HalfV half_of(int64_t h) {
  int ex = (h >> 10) & 31; int64_t f = h & 1023;
  return ex ? HalfV{f | 1024, ex - 25} : HalfV{f, -24};
}
static inline int64_t rtz(int64_t n, int p) {   // n >= 0; -1: not representable (overflow)
  if (!n) return 0;
  int b = 63 - __builtin_clzll((unsigned long long)n), E = b + p;
  if (E > 15) return -1;
  if (E < -14) { int s = p + 24; return s >= 0 ? n << s : (-s > 62 ? 0 : n >> -s); }
  int64_t m = b >= 10 ? n >> (b - 10) : n << (10 - b);
  return ((int64_t)(E + 15) << 10) | (m & 1023);
}
static inline int64_t ref_add(int64_t x, int64_t y) {
  HalfV a = half_of(x), b = half_of(y);
  int e = std::min(a.e, b.e);
  int64_t n = (a.m << (a.e - e)) * ((x >> 15) ? -1 : 1) + (b.m << (b.e - e)) * ((y >> 15) ? -1 : 1);
  int64_t r = rtz(n < 0 ? -n : n, e);
  return r < 0 ? r : r | (n < 0 ? 0x8000 : 0);
}
static inline int64_t ref_mul(int64_t x, int64_t y) {
  HalfV a = half_of(x), b = half_of(y);
  int64_t r = rtz(a.m * b.m, a.e + b.e);
  return r < 0 ? r : r | ((x ^ y) & 0x8000);
}
#ifndef NMANT
#define NMANT 1024
#endif
#ifndef N_FL
#define N_FL 2
#endif
#if defined(U_ADD) || defined(U_MUL)
// all pairs of finite non-negative halves (31 exponents x 1024 fractions each), optionally signed
#define ONE (31ull * 1024)
#ifdef SIGNED
#define PER (2 * ONE)
#else
#define PER ONE
#endif
#ifdef DIAG   // reduced enumeration: every first operand with every DIAG-th second operand
#define N_INPUTS (PER * ((PER + DIAG - 1) / DIAG))
#else
#define N_INPUTS (PER * PER)
#endif
static inline int64_t enc(uint64_t k) { return k < ONE ? (int64_t)k : (int64_t)(0x8000 | (k - ONE)); }
static inline V nth(uint64_t k) {
#ifdef DIAG
  uint64_t x = k % PER, y = (k / PER) * DIAG;
  return V{enc(x), enc((y + x * 7) % PER), 0};
#else
  uint64_t x = k % PER, y = k / PER;
  // (x + y*1001) keeps neighbouring operands unrelated while every pair is still visited once
  return V{enc((x * 12289 + y) % PER), enc(y), 0};
#endif
}
static inline V item(int k) {
  static const V it[3] = {{0x3c01, 0x2a55, 0}, {0x1fff, 0x3bcd, 0}, {0x0003, 0x3800, 0}};
  return it[k];
}
#ifndef N_ITEMS
#define N_ITEMS 2
#endif
static inline void drive(In& i, const V& v) { i.in1 = v.a; i.in2 = v.b; }
static inline void check(const V& v, const Out& o, Ctx& c) {
#ifdef U_ADD
  int64_t e = ref_add(v.a, v.b);
#else
  int64_t e = ref_mul(v.a, v.b);
#endif
  if (e < 0) return;                       // no finite result
  if ((int64_t)o.out != e) {
#if defined(U_MUL)
    if ((e & 0x7fff) == 0 && (o.out & 0x7fff) == 0) return;  // a zero of either sign
#endif
#if defined(U_ADD) && defined(KF_F01_sign)
    // finding F01_sign: the sign bits are ignored, the result is |a| + |b|
    if (((v.a | v.b) & 0x8000) && ((int64_t)o.out == ref_add(v.a & 0x7fff, v.b & 0x7fff) || ref_add(v.a & 0x7fff, v.b & 0x7fff) < 0)) { c.known(0); return; }
#endif
    c.fail("%04x op %04x -> %04x, expected %04x", (unsigned)v.a, (unsigned)v.b, (unsigned)o.out, (unsigned)e);
  }
}
#endif

#ifdef U_PIX2F   // three pixels to three halves: pix/256 exactly
#define N_INPUTS (1ull << 24)
static inline V nth(uint64_t k) { k = (k * 0x9E3779B1ull) & 0xffffff; return V{(int64_t)(k & 255), (int64_t)((k >> 8) & 255), (int64_t)(k >> 16)}; }
#define N_ITEMS 2
static inline V item(int k) { static const V it[2] = {{255, 0, 77}, {1, 128, 3}}; return it[k]; }
static inline void drive(In& i, const V& v) { i.a = v.a; i.b = v.b; i.c = v.c; }
static inline void check(const V& v, const Out& o, Ctx& c) {
  if ((int64_t)o.a != rtz(v.a, -8) || (int64_t)o.b != rtz(v.b, -8) || (int64_t)o.c != rtz(v.c, -8))
    c.fail("pixels (%d,%d,%d) -> halves (%04x,%04x,%04x), expected (%04x,%04x,%04x)", (int)v.a, (int)v.b, (int)v.c,
           (unsigned)o.a, (unsigned)o.b, (unsigned)o.c, (unsigned)rtz(v.a, -8), (unsigned)rtz(v.b, -8), (unsigned)rtz(v.c, -8));
}
#endif
#ifdef U_PIX2F1  // one pixel
#define N_INPUTS 1024ull
static inline V nth(uint64_t k) { return V{(int64_t)((k * 97 + k / 256) & 255), 0, 0}; }
#define N_ITEMS 3
static inline V item(int k) { static const V it[3] = {{255, 0, 0}, {0, 0, 0}, {77, 0, 0}}; return it[k]; }
static inline void drive(In& i, const V& v) { i.a = v.a; }
static inline void check(const V& v, const Out& o, Ctx& c) {
  if ((int64_t)o.a != rtz(v.a, -8)) c.fail("pixel %d -> half %04x, expected %04x", (int)v.a, (unsigned)o.a, (unsigned)rtz(v.a, -8));
}
#endif
#ifdef U_F2PIX   // halves from 0 to infinity to pixels: floor(256 x), 1.0 and more saturates
#define NH 0x7c01ull
#define N_INPUTS (NH * 64)
static inline V nth(uint64_t k) {
  uint64_t x = k % NH, y = k / NH;
  return V{(int64_t)((x * 7919) % NH), (int64_t)((x * 104729 + y * 241) % NH), (int64_t)((x * 15485863ull + y * 977) % NH)};
}
#define N_ITEMS 2
static inline V item(int k) { static const V it[2] = {{0x3bf8, 0x0001, 0x3400}, {0x1c00, 0x3c00, 0x3955}}; return it[k]; }
static inline void drive(In& i, const V& v) { i.a = v.a; i.b = v.b; i.c = v.c; }
static inline int64_t pixof(int64_t h) { if (h >= 0x3c00) return 255; HalfV a = half_of(h); int s = a.e + 8; int64_t p = s >= 0 ? a.m << s : a.m >> -s; return p > 255 ? 255 : p; }
static inline void check(const V& v, const Out& o, Ctx& c) {
  if ((int64_t)o.a != pixof(v.a) || (int64_t)o.b != pixof(v.b) || (int64_t)o.c != pixof(v.c))
    c.fail("halves (%04x,%04x,%04x) -> pixels (%d,%d,%d), expected (%d,%d,%d)", (unsigned)v.a, (unsigned)v.b, (unsigned)v.c,
           (int)o.a, (int)o.b, (int)o.c, (int)pixof(v.a), (int)pixof(v.b), (int)pixof(v.c));
}
#endif
#ifdef U_ROUND   // pixel -> half -> pixel
#define N_INPUTS (1ull << 24)
static inline V nth(uint64_t k) { k = (k * 0x9E3779B1ull) & 0xffffff; return V{(int64_t)(k & 255), (int64_t)((k >> 8) & 255), (int64_t)(k >> 16)}; }
static inline void drive(In& i, const V& v) { i.a = v.a; i.b = v.b; i.c = v.c; }
static inline void check(const V& v, const Out& o, Ctx& c) {
  if ((int64_t)o.a != v.a || (int64_t)o.b != v.b || (int64_t)o.c != v.c)
    c.fail("pixels (%d,%d,%d) came back as (%d,%d,%d)", (int)v.a, (int)v.b, (int)v.c, (int)o.a, (int)o.b, (int)o.c);
}
#endif
