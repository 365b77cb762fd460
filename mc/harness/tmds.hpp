// Reference TMDS (DVI 1.0) coding, written from the specification's flow chart.
#pragma once
static const uint16_t TMDS_CTL[4] = {0x354, 0x0AB, 0x154, 0x2AB};
static inline int pc(unsigned x) { return __builtin_popcount(x); }
static inline uint16_t tmds_encode(uint8_t d, int& cnt) {
  int n1 = pc(d);
  unsigned q = d & 1;
  bool xnor = n1 > 4 || (n1 == 4 && !(d & 1));
  for (int k = 1; k < 8; k++) { unsigned b = ((q >> (k - 1)) ^ (d >> k)) & 1; if (xnor) b ^= 1; q |= b << k; }
  unsigned q8 = xnor ? 0 : 1;
  int N1 = pc(q), N0 = 8 - N1;
  unsigned out;
  if (cnt == 0 || N1 == N0) {
    out = ((q8 ^ 1) << 9) | (q8 << 8) | (q8 ? q : (~q & 0xff));
    cnt += q8 ? N1 - N0 : N0 - N1;
  } else if ((cnt > 0 && N1 > N0) || (cnt < 0 && N0 > N1)) {
    out = (1u << 9) | (q8 << 8) | (~q & 0xff);
    cnt += 2 * (int)q8 + N0 - N1;
  } else {
    out = (q8 << 8) | q;
    cnt += -2 * (int)(q8 ^ 1) + N1 - N0;
  }
  return out;
}
static inline uint8_t tmds_decode(uint16_t w) {
  unsigned q = w & 0xff;
  if (w & 0x200) q = ~q & 0xff;
  unsigned d = q & 1;
  for (int k = 1; k < 8; k++) { unsigned b = ((q >> k) ^ (q >> (k - 1))) & 1; if (!(w & 0x100)) b ^= 1; d |= b << k; }
  return d;
}
static inline bool tmds_isctl(uint16_t w, int* c = nullptr) {
  for (int k = 0; k < 4; k++) if (w == TMDS_CTL[k]) { if (c) *c = k; return true; }
  return false;
}
