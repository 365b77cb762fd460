// DMA: every captured frame goes, whole and in order, to exactly one loaded slot; the slot becomes
// pending with its end address once the memory has taken all of it; nothing else is written.
#ifndef NWORDS
#define NWORDS 2
#endif
#ifndef NS
#define NS 2
#endif
#define IQ (NS > 1)
#define B (DW / 8)
static const int BASE[2][2] = {{0x10, 0x20}, {0x31, 0x44}};
#define T_IDLE 1
#ifdef SWEEP
#include <deque>
#include <vector>
#if DW > 256
typedef unsigned _BitInt(512) u128;
#elif DW > 128
typedef unsigned _BitInt(256) u128;
#else
typedef unsigned __int128 u128;
#endif
static inline uint64_t rnd(uint64_t x) { x *= 0x9E3779B97F4A7C15ull; x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 32; return x; }
// long frames: n words, memory stall pattern, frame length excess, slot order
#ifndef BIG
#define BIG 0
#endif
static const uint64_t N_CHUNKS = BIG ? 14 : 12 * 6 * 4 * (TH ? 12 : 4);
static void chunk(uint64_t kk, Ctx& c) {
  static const int NW[12] = {1, 2, 3, 5, 15, 16, 17, 33, 64, 100, 255, 300};
  static const int BW[14] = {65535, 65536, 65537, 131073, 65539, 32769, 250000, 16385, 65551, 99999, 65540, 66000, 2100000, 1048577};
  int n = BIG ? BW[kk] : NW[kk % 12], pat = BIG ? kk > 11 || kk % 6 == 4 ? 0 : kk % 6 : kk / 12 % 6, ex = BIG ? 0 : kk / 72 % 4, rep = BIG ? 0 : kk / 288;
  if (rep) n = n + rep * 7 % 29 + rep;
  Regs r; In i; Wires w; Out o;
  memset(&w, 0, sizeof w); memset(&o, 0, sizeof o);
  dut_init(r);
  std::deque<uint64_t> addrs; std::deque<u128> datas;    // expected
  int t = 0;
  uint64_t prog[NS]; bool loaded[NS] = {}; int cur = -2, offered = 0;
  auto tick = [&]() { c.edge(0, r, i, w); t++; };
  auto st = [&](int k) { switch (k) { case 0: return (int)o.st0;
#if NS > 1
    case 1: return (int)o.st1;
#endif
#if NS > 2
    case 2: return (int)o.st2;
#endif
#if NS > 3
    case 3: return (int)o.st3;
#endif
#if NS > 4
    case 4: return (int)o.st4;
#endif
#if NS > 5
    case 5: return (int)o.st5;
#endif
#if NS > 6
    case 6: return (int)o.st6;
#endif
#if NS > 7
    case 7: return (int)o.st7;
#endif
    } return -1; };
  auto ad = [&](int k) -> uint64_t { switch (k) { case 0: return o.ad0;
#if NS > 1
    case 1: return o.ad1;
#endif
#if NS > 2
    case 2: return o.ad2;
#endif
#if NS > 3
    case 3: return o.ad3;
#endif
#if NS > 4
    case 4: return o.ad4;
#endif
#if NS > 5
    case 5: return o.ad5;
#endif
#if NS > 6
    case 6: return o.ad6;
#endif
#if NS > 7
    case 7: return o.ad7;
#endif
    } return -1; };
  auto wst = [&](int k, int v) { switch (k) { case 0: i.st0_re = 1; i.st0_r = v; break;
#if NS > 1
    case 1: i.st1_re = 1; i.st1_r = v; break;
#endif
#if NS > 2
    case 2: i.st2_re = 1; i.st2_r = v; break;
#endif
#if NS > 3
    case 3: i.st3_re = 1; i.st3_r = v; break;
#endif
#if NS > 4
    case 4: i.st4_re = 1; i.st4_r = v; break;
#endif
#if NS > 5
    case 5: i.st5_re = 1; i.st5_r = v; break;
#endif
#if NS > 6
    case 6: i.st6_re = 1; i.st6_r = v; break;
#endif
#if NS > 7
    case 7: i.st7_re = 1; i.st7_r = v; break;
#endif
    } };
  auto wad = [&](int k, uint64_t v) { switch (k) { case 0: i.ad0_re = 1; i.ad0_r = v; break;
#if NS > 1
    case 1: i.ad1_re = 1; i.ad1_r = v; break;
#endif
#if NS > 2
    case 2: i.ad2_re = 1; i.ad2_r = v; break;
#endif
#if NS > 3
    case 3: i.ad3_re = 1; i.ad3_r = v; break;
#endif
#if NS > 4
    case 4: i.ad4_re = 1; i.ad4_r = v; break;
#endif
#if NS > 5
    case 5: i.ad5_re = 1; i.ad5_r = v; break;
#endif
#if NS > 6
    case 6: i.ad6_re = 1; i.ad6_r = v; break;
#endif
#if NS > 7
    case 7: i.ad7_re = 1; i.ad7_r = v; break;
#endif
    } };
  int naddr = 0, ndata = 0;
  auto cycle = [&]() {
    uint64_t z = rnd(kk * 7919 + t);
    i.cready = pat == 0 ? 1 : pat == 1 ? t & 1 : pat == 2 ? (t / 9) & 1 : pat == 3 ? z & 1 : pat == 4 ? (z & 7) == 0 : 1;
    i.wready = pat == 0 ? 1 : pat == 1 ? (t >> 1) & 1 : pat == 2 ? (t / 20) & 1 : pat == 3 ? (z >> 1) & 1 : pat == 4 ? (z & 0x38) == 0 : (z >> 7 & 15) == 0;
    c.comb(r, i, w, o);
    if (c.failed) return;
    if (o.cvalid && !o.cwe) { c.fail("the writer issued a read command"); return; }
    if (o.cvalid && i.cready) {
      if (addrs.empty() && cur == -1 && offered) {      // the first command tells the slot
        for (int k = 0; k < NS; k++) if (loaded[k] && (uint64_t)o.caddr == prog[k]) cur = k;
        if (cur < 0) { c.fail("first word of a frame written to %x, the address of no loaded slot", (unsigned)o.caddr); return; }
        for (int q = 0; q < offered; q++) addrs.push_back(prog[cur] + q);
        loaded[cur] = false;
      }
      if (addrs.empty()) { c.fail("write to word address %x outside any frame", (unsigned)o.caddr); return; }
      if (o.caddr != addrs.front()) { c.fail("word address %x written, expected %x", (unsigned)o.caddr, (unsigned)addrs.front()); return; }
      addrs.pop_front(); naddr++;
    }
    if (o.wvalid && i.wready) {
      if (datas.empty() || (u128)o.wdata != datas.front()) { c.fail("word %d written with the wrong data", ndata); return; }
      if (o.wwe != (B < 64 ? (1ull << (B & 63)) - 1 : ~0ull)) { c.fail("not all bytes of a word enabled"); return; }
      datas.pop_front(); ndata++;
    }
    if (ndata > naddr) { c.fail("data taken before its command"); return; }
  };
  auto idle = [&](int q) { while (q-- && !c.failed) { in_init(i); i.sof = !(q & 1); cycle(); tick(); } };   // sof is only meaningful with valid
  in_init(i); i.fs_re = 1; i.fs_r = n * B; cycle(); tick();
  in_init(i); i.en_re = 1; i.en_r = 1 << IQ; cycle(); tick();
  for (int f = 0; f < (NS + 1) * (BIG ? 1 : 2) && !c.failed; f++) {
    const bool capture = f % (NS + 1) < NS;           // no slot loaded: the frame is dropped
    if (f % (NS + 1) == 0) {                         // load all slots
      for (int k = 0; k < NS; k++) {
        prog[k] = (BIG ? kk > 11 ? 0xa00000 : 0x41000 * (2 - k) : 0) + 0x100 * (f + 1) + 0x4000 * (k + 1) + kk;
        in_init(i); wad(k, prog[k] * B); cycle(); tick();
        in_init(i); wst(k, 1); cycle(); tick();
        loaded[k] = true;
        if (f && k == 0) idle(5);
      }
      if (f == 0) idle(4);
    }
    cur = capture ? -1 : -2; offered = 0;
    int N = ex == 3 ? n : n + ex * 3;
    // frames may follow each other without any pause
    for (int q = 0; q < N && !c.failed; q++) {
      int guard = 0;
      u128 d = 0;
      for (int z = (DW + 63) / 64 - 1; z >= 0; z--) d = (DW > 64 ? d << (DW > 64 ? 64 : 0) : (u128)0) | (u128)rnd(z & 1 ? kk + q * 131 + f + (z >> 1) * 7717 : q + f * 977 + (z >> 1) * 5557);
      if (DW < 128) d &= (((u128)1 << (DW % 128)) - 1);
      if (capture && q < n) { if (cur >= 0) addrs.push_back(prog[cur] + q); else offered++; datas.push_back(d); }
      for (;;) {
        in_init(i); i.valid = 1; i.sof = q == 0; i.data = d;
        cycle(); if (c.failed) return;
        // pending only once everything is written
        for (int s = 0; s < NS; s++) if (capture && s == cur && st(s) == 2 && !datas.empty() && q < n) { c.fail("slot %d pending before its frame is in memory", s); return; }
        bool rd = o.ready;
        tick();
        if (c.sample && t > 4000) return;
        if (rd) break;
        if (++guard > 4000) { c.fail("the frame is not accepted"); return; }
      }
      if (ex == 2 && q % 3 == 0) idle(2);
    }
    for (int q = 0; q < 6000 && !c.failed && cur == -1; q++) idle(1);
    if (cur == -1) { c.fail("a frame was accepted and its first word not written"); return; }
    if (ex != 1 || f == 2 * NS + 1) {
      for (int q = 0; q < 6000 && !c.failed && (!addrs.empty() || !datas.empty()); q++) idle(1);
      idle(6);
      if (c.sample && t > 4000) return;
      if (!addrs.empty() || !datas.empty()) { c.fail("%d words of the frame never written", (int)datas.size()); return; }
      if (capture) {
        if (st(cur) != 2) { c.fail("slot %d not pending after its frame (status %d)", cur, st(cur)); return; }
        if (ad(cur) != (prog[cur] + n) * B) { c.fail("end address reads %x, expected %x", (unsigned)ad(cur), (unsigned)((prog[cur] + n) * B)); return; }
        c.cover(1);
      }
      for (int s = 0; s < NS; s++) {
        if (loaded[s] && st(s) != 1) { c.fail("slot %d changed state without a frame", s); return; }
        if ((int)(o.pending >> s & 1) != (st(s) == 2)) { c.fail("event pending %d, slot %d status %d", (int)o.pending, s, st(s)); return; }
      }
      if (o.irq != (st(IQ) == 2)) { c.fail("interrupt %d with only slot %d's event enabled, its status %d", (int)o.irq, IQ, st(IQ)); return; }
    }
    if (f == 2 * NS) {                                   // acknowledge
      for (int q = 0; q < 6000 && !c.failed && (!addrs.empty() || !datas.empty()); q++) idle(1);
      idle(6);
      in_init(i); wst(IQ, 0); cycle(); tick(); idle(2);
      if (o.irq || (o.pending >> IQ & 1)) { c.fail("event still pending after it was acknowledged"); return; }
    }
  }
  c.cover(0);
}
#else
struct Mon {
  uint8_t st[NS], variant[NS], age, swpc, sws, cert, race;   // software view of the slots
  uint8_t offer, osof, odata, seq;         // word being offered
  uint8_t rem, slot, ca, nq, q[8];         // frame being captured; words taken, not yet written
  uint8_t stuck, done;
};
static void start(Regs& r, Mon& m, Ctx& c) {
  dut_init(r); memset(&m, 0, sizeof m);
  In i; Wires w; Out o; memset(&w, 0, sizeof w);
  in_init(i); i.fs_re = 1; i.fs_r = NWORDS * B; c.comb(r, i, w, o); c.edge(0, r, i, w);
  in_init(i); i.en_re = 1; i.en_r = 1; c.comb(r, i, w, o); c.edge(0, r, i, w);
  in_init(i); c.comb(r, i, w, o); c.edge(0, r, i, w); c.comb(r, i, w, o); c.edge(0, r, i, w);
  m.age = 4; m.slot = 9;
}
static void step(Regs& r, Mon& m, Ctx& c) {
  In i; Wires w; Out o;
  in_init(i); memset(&w, 0, sizeof w); memset(&o, 0, sizeof o);
  bool busy = m.slot != 9;
  // software: loads slots (address, then status), acknowledges, withdraws
  if (m.swpc == 0) {
    int k = c.choose(3);
    if (k) {
      int s = k - 1; m.sws = s;
      if (m.st[s] == 0) { m.swpc = 1; m.variant[s] ^= 1; }
      else if (m.st[s] == 1) {
#ifdef WITHDRAW
        m.swpc = 2;
#endif
      } else if (c.choose(2)) m.swpc = 2;
      else { m.swpc = 1; m.variant[s] ^= 1; }
    }
  }
  if (m.swpc == 1) { int a = BASE[m.sws][m.variant[m.sws]] * B; if (m.sws) { i.ad1_re = 1; i.ad1_r = a; } else { i.ad0_re = 1; i.ad0_r = a; } }
  else if (m.swpc == 2) { if (m.sws) { i.st1_re = 1; i.st1_r = 0; } else { i.st0_re = 1; i.st0_r = 0; } }
  else if (m.swpc == 3) { if (m.sws) { i.st1_re = 1; i.st1_r = 1; } else { i.st0_re = 1; i.st0_r = 1; } }
  // source
  if (!m.offer) {
    int k = c.choose(3);                       // nothing, sof, other word
    if (k) { m.offer = 1; m.osof = k == 1; m.odata = 0x20 | m.seq << 1 | m.osof; m.seq = (m.seq + 1) & 3; }
  }
  i.valid = m.offer; i.sof = !m.offer || m.osof; i.data = m.offer ? m.odata : 0xee;
  i.cready = c.choose(2); i.wready = m.nq >= 6 ? 1 : c.choose(2);
  c.comb(r, i, w, o);
  int st[NS] = {(int)o.st0, (int)o.st1};
  if (m.race) {                                // completed in the cycle it was withdrawn
    int s = m.race - 1;
    if (st[s] == 2) m.st[s] = 2;
    m.race = 0;
  }
  // completion seen by software
  if (busy && !m.rem && m.nq == 0 && st[m.slot] == 2) {
    int s = m.slot; unsigned a = s ? o.ad1 : o.ad0, e = (BASE[s][m.variant[s]] + NWORDS) * B;
    if (a != e) { c.fail("end address reads %x, expected %x", a, e); return; }
    m.st[s] = 2; m.cert &= ~(1 << s); m.slot = 9; busy = false; c.cover(0); m.done = 0;
  }
  for (int s = 0; s < NS; s++) if (st[s] != m.st[s]) { c.fail("slot %d status %d, expected %d", s, st[s], m.st[s]); return; }
  for (int s = 0; s < NS; s++) if ((int)(o.pending >> s & 1) != (st[s] == 2)) { c.fail("slot %d event pending %d with status %d", s, (int)(o.pending >> s & 1), st[s]); return; }
  if (o.irq != (st[0] == 2)) { c.fail("interrupt %d, only slot 0's event is enabled and its status is %d", (int)o.irq, st[0]); return; }
  if (busy && !m.rem && m.nq == 0) { if (++m.done > 8) { c.fail("the frame is in memory, its slot does not become pending"); return; } }
  // a word accepted is written (its command leaves with it) or dropped
  if (o.cvalid && !o.cwe) { c.fail("the writer issued a read command"); return; }
  bool acc = o.valid_ready && m.offer, cmd = o.cvalid && i.cready;
  if (cmd && !acc) { c.fail("a write command to %x without a word", (unsigned)o.caddr); return; }
  if (acc) {
    if (busy && m.rem) {
      if (!cmd) { c.fail("a word of the frame was dropped"); return; }
      if ((int)o.caddr != BASE[m.slot][m.variant[m.slot]] + m.ca) { c.fail("word %d of the frame written to %x", m.ca, (unsigned)o.caddr); return; }
      if (m.osof) c.cover(4);
      m.ca++; m.rem--; m.q[m.nq++] = m.odata;
    } else if (cmd) {
      if (!m.osof) { c.fail("a word outside any frame was written to %x", (unsigned)o.caddr); return; }
      if (busy) { c.fail("a frame was started before the slot of the previous one is pending"); return; }
      for (int s = 0; s < NS; s++) if (m.st[s] == 1 && (int)o.caddr == BASE[s][m.variant[s]]) m.slot = s;
      if (m.slot == 9) { c.fail("first word of a frame written to %x, the address of no loaded slot", (unsigned)o.caddr); return; }
      busy = true; m.rem = NWORDS - 1; m.ca = 1; m.q[m.nq++] = m.odata;
      c.cover(3); c.cover(m.slot ? 6 : 5);
    } else {
      // loaded long enough to be seen, and not the slot of the frame that is just ending
      if (m.osof && (m.cert & ~(busy ? 1 << m.slot : 0))) { c.fail("a frame was dropped although a slot is loaded"); return; }
      c.cover(2);
    }
    m.offer = 0;
  }
  if (o.wvalid && i.wready) {
    if (!m.nq) { c.fail("data written, no word is outstanding"); return; }
    if (o.wdata != m.q[0]) { c.fail("data %02x written, expected %02x", (unsigned)o.wdata, m.q[0]); return; }
    memmove(m.q, m.q + 1, 7); m.q[7] = 0; m.nq--;
  }
  // progress
  if ((m.offer || m.nq) && i.cready && i.wready) { if (++m.stuck > 10) { c.fail("no progress although the memory is ready"); return; } } else if (!m.offer && !m.nq) m.stuck = 0;
  if (acc || (o.wvalid && i.wready)) m.stuck = 0;
  if (!busy) { m.ca = m.done = 0; }
  c.edge(0, r, i, w);
  if (m.age < 4 && ++m.age == 4) for (int s = 0; s < NS; s++) if (m.st[s] == 1) m.cert |= 1 << s;
  if (m.swpc == 1) m.swpc = 3;
  else if (m.swpc == 2) {
    if (m.st[m.sws] == 1) {
      c.cover(7);
      if (busy && m.slot == m.sws) { m.slot = 9; c.cover(8); if (!m.rem && !m.nq) m.race = m.sws + 1; m.rem = 0; m.done = 0; m.ca = 0; }
    }
    if (m.st[m.sws] == 1) { m.cert = 0; m.stuck = 0; }  // the selection moves on within some cycles; withdrawing for ever is no progress
    m.swpc = 0; m.st[m.sws] = 0; m.age = 0; m.cert &= ~(1 << m.sws);
  }
  else if (m.swpc == 3) { m.swpc = 0; m.st[m.sws] = 1; m.age = 0; }
  for (int s = 0; s < NS; s++) if (m.st[s] != 1) m.cert &= ~(1 << s);
}
#endif
