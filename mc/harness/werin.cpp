// Word error counters inside the receiver: serial lanes with a known number of bad words.
// Edges as in hdmiin.cpp: 0 fast, 1 sys+pix, 2 all, 3 sys.
static const uint64_t N_CHUNKS = 3;
static const int E[3] = {997, 1201, 1409};
static void chunk(uint64_t kk, Ctx& c) {
  Regs r; In i; Wires w; Out o; memset(&w, 0, sizeof w); memset(&o, 0, sizeof o);
  dut_init(r); in_init(i); i.lock = 1;
  const int FB = S7 ? 8 : 5;                       // bits per fast clock
  const int64_t N = (int64_t)1 << 24;
  const int off = kk * 7 + 3;
  auto word = [&](int l, int64_t n) -> unsigned {
    if (n % 4096 < 24) return 0x354;
    return n % E[(l + kk) % 3] == 50 ? 0x3ea : 0x3e0;
  };
  auto feed = [&](int64_t b) {
    unsigned q[3] = {0, 0, 0};
    for (int l = 0; l < 3; l++) {
      int64_t x = b + off + l; int64_t n = x / 10; int s = x % 10;
      unsigned v = word(l, n) >> s | word(l, n + 1) << (10 - s);
      q[l] = v & ((1 << FB) - 1);
    }
    i.q0 = q[0]; i.q1 = q[1]; i.q2 = q[2];
  };
  const int64_t end = c.sample ? 30000 : (2 * N + N / 2) * 10;
  int64_t nf = 0, np = S7 ? 3 : 0;
  feed(0);
  while (nf < end) {
    bool f = nf <= np, p = np <= nf; int64_t at = f ? nf : np;
    c.comb(r, i, w, o);
    c.edge(f && p ? 2 : f ? 0 : 1, r, i, w);
    if (f) { nf += FB; feed(nf); }
    if (p) np += 10;
    (void)at;
  }
  i.u0 = i.u1 = i.u2 = 1; c.comb(r, i, w, o); c.edge(3, r, i, w);
  i.u0 = i.u1 = i.u2 = 0; c.comb(r, i, w, o); c.edge(3, r, i, w);
  c.comb(r, i, w, o);
  if (c.sample) return;
  const int64_t g[3] = {(int64_t)o.v0, (int64_t)o.v1, (int64_t)o.v2};
  for (int l = 0; l < 3; l++) {
    int64_t x = N / E[(l + kk) % 3];
    if (g[l] < x * 994 / 1000 - 3 || g[l] > x + 2) c.fail("lane %d: %lld errors reported for %lld bad words in a period of 2^24", l, (long long)g[l], (long long)x);
    c.cover(0);
  }
}
