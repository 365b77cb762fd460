// One cycle of the pixel clock.  With FAST, the system clock has FAST more edges in it, which see the same
// inputs; with SLOW, it has an edge in every SLOW-th one only, and in those of a register access (SYS_BUSY).
// LAG: how much later, in pixel clocks, the system clock domain may know.
#ifndef SYS_IDLE
#define SYS_IDLE
#define SYS_BUSY 0
#endif
#if defined FAST
#define LAG 0
#define EDGE() do { \
    for (int q_ = 0; q_ < FAST; q_++) { c.edge(1, r, i, w); SYS_IDLE; Out o_; memset(&o_, 0, sizeof o_); c.comb(r, i, w, o_); } \
    c.edge(0, r, i, w); } while (0)
#elif defined SLOW
#define LAG (4 * SLOW)
static thread_local int slow_n;
static inline void clocks_init(Regs& r) { dut_init(r); slow_n = 0; }
#define dut_init clocks_init
#define EDGE() do { if (++slow_n >= SLOW || SYS_BUSY) { slow_n = 0; c.edge(0, r, i, w); } else c.edge(2, r, i, w); } while (0)
#else
#define LAG 0
#define EDGE() c.edge(0, r, i, w)
#endif
