from props.common import Job, with_csrs


def build(aw, dw, ns=2):
    def f():
        from litevideo.input.dma import DMA
        from litedram.common import LiteDRAMNativePort
        p = LiteDRAMNativePort("write", aw, dw)
        m = DMA(p, ns)
        irq = m.ev.irq
        top, r = with_csrs(m)
        i = dict(valid=m.frame.valid, sof=m.frame.sof, data=m.frame.pixels, cready=p.cmd.ready, wready=p.wdata.ready)
        for n, k in [("fs", "frame_size"), ("en", "ev_enable")] + [(a + str(s), "slot%d_%s" % (s, b)) for s in range(ns) for a, b in (("st", "status"), ("ad", "address"))]:
            i[n + "_re"], i[n + "_r"] = r[k].re, r[k].r
        o = dict(cvalid=p.cmd.valid, cwe=p.cmd.we, caddr=p.cmd.addr, wvalid=p.wdata.valid, wdata=p.wdata.data, wwe=p.wdata.we,
                 pending=r["ev_pending"].w, irq=irq)
        for s in range(ns):
            o["st%d" % s], o["ad%d" % s] = r["slot%d_status" % s].w, r["slot%d_address" % s].w
        o["ready" if aw > 8 else "valid_ready"] = m.frame.ready
        return dict(module=top, inputs=i, outputs=o, clocks=["sys"], edges=[("sys",)])
    return f


COV = {0: "frame captured", 2: "word dropped", 3: "frame started", 5: "slot 0 used", 6: "slot 1 used"}


def jobs(tier):
    J = [Job("histories-%d" % n, build(8, 16), "dma.cpp", covers=COV, defines=dict(NWORDS=n, DW=16), threads=4,
             max_states=(1500000 if n == 1 else 12000000 if n == 2 else 2000000) if tier == "quick" else 24000000) for n in (1, 2, 3)]
    J += [Job("withdrawn-%d" % n, build(8, 16), "dma.cpp", covers={**COV, 7: "slot withdrawn", 8: "slot withdrawn in its frame"}, defines=dict(NWORDS=n, DW=16, WITHDRAW=1),
              threads=4, max_states=2000000 if tier == "quick" else 12000000) for n in (1, 2)]
    for aw, dw in ((24, 64), (20, 128), (24, 256)):
        J.append(Job("long-%d" % dw, build(aw, dw), "dma.cpp", sweep=True, defines=dict(DW=dw), covers={0: "schedules", 1: "frame captured"}, threads=4, traces=2))
    for n in (3, 4, 8):
        J.append(Job("slots-%d" % n, build(24, 64, n), "dma.cpp", sweep=True, defines=dict(DW=64, NS=n), covers={0: "schedules", 1: "frame captured"}, threads=4, traces=2))
    J.append(Job("big", build(24, 32), "dma.cpp", sweep=True, defines=dict(DW=32, BIG=1), covers={0: "schedules", 1: "frame captured"}, threads=4, traces=1))
    return J
