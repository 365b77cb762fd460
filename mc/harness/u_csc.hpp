// Units with three-component payloads: colour space converters.
struct V { int64_t a, b, c; };
static inline int64_t clampv(int64_t v, int64_t lo, int64_t hi) { return v < lo ? lo : v > hi ? hi : v; }
#define DMAX ((1 << DW) - 1)
#define N_INPUTS (1ull << (3 * DW))
static inline V nth(uint64_t k) {
  // a Gray-free bijective scramble: neighbouring items in the pipeline are unrelated pixels
  uint64_t m = N_INPUTS - 1;
  k = (k * 0x9E3779B1ull) & m;
  return V{(int64_t)(k & DMAX), (int64_t)((k >> DW) & DMAX), (int64_t)((k >> (2 * DW)) & DMAX)};
}
#ifndef N_FL
#define N_FL 2
#endif
#define N_ITEMS 2
static inline V item(int k) {
  static const V it[2] = {{DMAX - 1, 3, DMAX / 2 + 2}, {5, DMAX - 2, 1}};
  return it[k];
}
#ifdef U_RGB2YCBCR
static inline void drive(In& i, const V& v) { i.r = v.a; i.g = v.b; i.b = v.c; }
static inline void check(const V& v, const Out& o, Ctx& c) {
  const double f = (double)(1 << CW);
  const int64_t ca = (int64_t)(0.1819 * f), cb = (int64_t)(0.0618 * f), cc = (int64_t)(0.5512 * f), cd = (int64_t)(0.6495 * f);
  int64_t r = v.a, g = v.b, b = v.c, yo = 1 << (DW - 4), co = 1 << (DW - 1);
  int64_t yraw = ((ca * (r - g) + cb * (b - g)) >> CW) + g;
  int64_t y = clampv(yraw + yo, 0, DMAX);
  int64_t pb = clampv(((cc * (b - yraw)) >> CW) + co, 0, DMAX);
  int64_t pr = clampv(((cd * (r - yraw)) >> CW) + co, 0, DMAX);
  if (o.y != y || o.cb != pb || o.cr != pr) {
    c.fail("rgb(%d,%d,%d) -> ycbcr(%d,%d,%d), expected (%d,%d,%d)", (int)r, (int)g, (int)b, (int)o.y, (int)o.cb, (int)o.cr, (int)y, (int)pb, (int)pr);
    return;
  }
#if CW >= 8
  // the documented real-valued equation, within the coefficient quantisation
  double yr = 0.1819 * (r - g) + 0.0618 * (b - g) + g;
  double ey = yr + yo, eb = 0.5512 * (b - yr) + co, er = 0.6495 * (r - yr) + co;
  auto far = [](double x, double e) { double m = e < 0 ? 0 : e > DMAX ? DMAX : e; double d = x - m; return d > 3.0 || d < -3.0; };
  if (DW <= 8 && (far(o.y, ey) || far(o.cb, eb) || far(o.cr, er)))
    c.fail("rgb(%d,%d,%d) -> ycbcr(%d,%d,%d) is more than 3 away from the real-valued equation", (int)r, (int)g, (int)b, (int)o.y, (int)o.cb, (int)o.cr);
#endif
}
#endif
#ifdef U_YCBCR2RGB
static inline void drive(In& i, const V& v) { i.y = v.a; i.cb = v.b; i.cr = v.c; }
static inline void check(const V& v, const Out& o, Ctx& c) {
  const double f = (double)(1 << (CW - 2)), ca = 0.1819, cb = 0.0618, cc = 0.5512, cd = 0.6495;
  const int64_t A = (int64_t)(1 / cd * f), B = (int64_t)(-cb / (cc * (1 - ca - cb)) * f), C = (int64_t)(-ca / (cd * (1 - ca - cb)) * f), D = (int64_t)(1 / cc * f);
  int64_t y = v.a - (1 << (DW - 4)), pb = v.b - (1 << (DW - 1)), pr = v.c - (1 << (DW - 1));
  int s = CW - 2;
  int64_t r = clampv(y + ((pr * A) >> s), 0, DMAX);
  int64_t g = clampv(y + ((pb * B) >> s) + ((pr * C) >> s), 0, DMAX);
  int64_t b = clampv(y + ((pb * D) >> s), 0, DMAX);
  if (o.r != r || o.g != g || o.b != b) {
    c.fail("ycbcr(%d,%d,%d) -> rgb(%d,%d,%d), expected (%d,%d,%d)", (int)v.a, (int)v.b, (int)v.c, (int)o.r, (int)o.g, (int)o.b, (int)r, (int)g, (int)b);
    return;
  }
#if CW >= 8
  double er = y + pr / cd, eg = y + pb * (-cb / (cc * (1 - ca - cb))) + pr * (-ca / (cd * (1 - ca - cb))), eb = y + pb / cc;
  auto far = [](double x, double e) { double m = e < 0 ? 0 : e > DMAX ? DMAX : e; double d = x - m; return d > 6.0 || d < -6.0; };
  if (DW <= 8 && (far(o.r, er) || far(o.g, eg) || far(o.b, eb)))
    c.fail("ycbcr(%d,%d,%d) -> rgb(%d,%d,%d) is more than 6 away from the real-valued equation", (int)v.a, (int)v.b, (int)v.c, (int)o.r, (int)o.g, (int)o.b);
#endif
}
#endif
