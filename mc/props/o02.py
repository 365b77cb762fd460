from props.common import Job, with_csrs

MASK = {"rgb": 24, "raw": 32, "ycbcr422": 16}


def widen(top, p, ratio):
    if ratio == 1:
        return p
    from litedram.common import LiteDRAMNativePort      # a wider memory, behind litedram's converter
    from litedram.frontend.adapter import LiteDRAMNativePortConverter
    wide = LiteDRAMNativePort("read", p.address_width, p.data_width * ratio, clock_domain=p.clock_domain)
    top.submodules += LiteDRAMNativePortConverter(p, wide)
    return wide


def core(mode, depth, cd="sys", aw=16, busword=32, ratio=1):
    def f():
        from litedram.common import LiteDRAMNativePort
        from litevideo.output.core import VideoOutCore
        dw = 16 if mode == "ycbcr422" else 32
        p = LiteDRAMNativePort("read", aw, dw, clock_domain=cd)
        m = VideoOutCore(p, mode=mode, fifo_depth=depth)
        top, regs = with_csrs(m, busword)
        p = widen(top, p, ratio)
        q = m.source
        i = dict(cready=p.cmd.ready, rvalid=p.rdata.valid, rdata=p.rdata.data, ready=q.ready)
        n = dict(en="enable", base="base", len="length", hres="hres", hss="hsync_start", hse="hsync_end", hscan="hscan", vres="vres", vss="vsync_start",
                 vse="vsync_end", vscan="vscan")
        for a, b in n.items():
            z = regs.get("initiator_" + b) or regs["initiator_" + b + "0"]
            i[a + "_re"], i[a + "_r"] = z.re, z.r
        if busword == 8:
            i["base1_re"], i["base1_r"] = regs["initiator_base1"].re, regs["initiator_base1"].r
        for a, b in (("ue", "underflow_enable"), ("uu", "underflow_update")):
            i[a + "_re"], i[a + "_r"] = regs[b].re, regs[b].r
        o = dict(cvalid=p.cmd.valid, cwe=p.cmd.we, caddr=p.cmd.addr, rready=p.rdata.ready, valid=q.valid, de=q.de, hsync=q.hsync, vsync=q.vsync,
                 data=q.data, uc=(regs.get("underflow_counter") or regs["underflow_counter0"]).w)
        clocks = ["sys"] if cd == "sys" else ["sys", cd]
        edges = [("sys",)] if cd == "sys" else [("sys",), (cd,), ("sys", cd)]
        return dict(module=top, inputs=i, outputs=o, clocks=clocks, edges=edges)
    return f


def genlock(mode, depth, aw=16, ratio=1):
    def f():
        from litedram.common import LiteDRAMNativePort
        from litex.soc.interconnect import stream
        from litevideo.output.common import frame_timing_layout
        from litevideo.output.core import VideoOutCore
        g = stream.Endpoint(frame_timing_layout)
        p = LiteDRAMNativePort("read", aw, 32, clock_domain="sys")
        m = VideoOutCore(p, mode=mode, fifo_depth=depth, genlock_stream=g)
        top, regs = with_csrs(m)
        p = widen(top, p, ratio)
        q = m.source
        i = dict(cready=p.cmd.ready, rvalid=p.rdata.valid, rdata=p.rdata.data, ready=q.ready, gvalid=g.valid, gde=g.de, ghs=g.hsync, gvs=g.vsync)
        for a, b in dict(en="initiator_enable", base="initiator_base", len="initiator_length", dly="dma_delay_base").items():
            i[a + "_re"], i[a + "_r"] = regs[b].re, regs[b].r
        o = dict(cvalid=p.cmd.valid, caddr=p.cmd.addr, rready=p.rdata.ready, valid=q.valid, de=q.de, hsync=q.hsync, vsync=q.vsync, data=q.data)
        return dict(module=top, inputs=i, outputs=o, clocks=["sys"], edges=[("sys",)])
    return f


def jobs(tier):
    J = []
    C = {0: "frame from buffer 0", 2: "frame completed"}
    for mode in ("rgb", "ycbcr422", "raw"):
        d = dict(DW=16 if mode == "ycbcr422" else 32, MASK=(1 << MASK[mode]) - 1, DEPTH=4, CREADY=0, READY=0)
        if mode == "raw":
            d["RAW"] = 1
        J.append(Job("memory-" + mode, core(mode, 4), "outcore.cpp", defines=d, covers=C, threads=2))
        J.append(Job("restart-" + mode, core(mode, 4), "outcore.cpp", defines=dict(d, CREADY=1, READY=1, TOGGLE=4), covers={**C, 3: "stopped"}, threads=2))
        J.append(Job("flip-" + mode, core(mode, 4), "outcore.cpp", defines=dict(d, CREADY=1, READY=1, FLIP=2), covers={**C, 1: "frame from buffer 1"}, threads=2))
        if mode != "ycbcr422" or tier == "thorough":
            J.append(Job("restart-memory-" + mode, core(mode, 4), "outcore.cpp", defines=dict(d, TOGGLE=2), covers={**C, 3: "stopped"}, threads=4, max_states=20000000))
            J.append(Job("flip-memory-" + mode, core(mode, 4), "outcore.cpp", defines=dict(d, FLIP=1), covers={**C, 1: "frame from buffer 1"}, threads=4, max_states=20000000))
        r = 2 if mode == "raw" else 4 if mode == "ycbcr422" else 2
        d = dict(d, RATIO=r)
        J.append(Job("wide-memory-" + mode, core(mode, 8, ratio=r), "outcore.cpp", defines=dict(d, DEPTH=8), covers=C, threads=2))
        J.append(Job("wide-restart-" + mode, core(mode, 8, ratio=r), "outcore.cpp", defines=dict(d, DEPTH=8, CREADY=1, READY=1, TOGGLE=4), covers={**C, 3: "stopped"}, threads=2))
    # registers written byte by byte
    J.append(Job("flip-bytes", core("rgb", 4, busword=8), "outcore.cpp", defines=dict(DW=32, MASK=(1 << 24) - 1, DEPTH=4, CREADY=1, READY=1, FLIP=2, BYTES=1),
                 covers={**C, 1: "frame from buffer 1"}, threads=2))
    for depth, fmt, dly in ((4, "{4, 5, 6, 7, 3, 4, 5, 6}", 0), (4, "{2, 3, 4, 7, 2, 3, 4, 4}", 0), (8, "{3, 3, 4, 5, 2, 3, 4, 6}", 0), (4, "{4, 5, 6, 7, 3, 4, 5, 6}", 2)):
        J.append(Job("genlock-%d-%s-%d" % (depth, fmt[1:5].replace(", ", "x"), dly), genlock("rgb", depth), "genlock.cpp", defines=dict(FMT=fmt, DLY=dly, HICCUPS=2),
                     covers={0: "frame", 1: "after a late word"}, threads=2))
    for fmt in ("{4, 5, 6, 23, 3, 4, 5, 6}", "{3, 4, 5, 19, 3, 4, 5, 6}"):
        J.append(Job("genlock-wide-%s" % fmt[1:5].replace(", ", "x"), genlock("rgb", 8, ratio=2), "genlock.cpp", defines=dict(FMT=fmt, DLY=0, HICCUPS=1, RATIO=2),
                     covers={0: "frame", 1: "after a late word"}, threads=2))
    J.append(Job("genlock-far", genlock("rgb", 4, 24), "genlock.cpp", defines=dict(FMT="{2, 3, 4, 7, 2, 3, 4, 4}", DLY=0x92345, HICCUPS=1, FAR=1), covers={0: "frame", 1: "after a late word"}))
    # larger frames, buffers of several sizes, two clocks
    n = 4
    for mode, cd, depth, fmt in (("rgb", "video", 4, "{7, 8, 9, 10, 4, 5, 6, 6}"), ("rgb", "sys", 16, "{7, 8, 9, 10, 4, 5, 6, 6}"), ("ycbcr422", "video", 16, "{8, 9, 11, 13, 5, 6, 7, 8}"),
                                 ("raw", "video", 16, "{5, 6, 7, 9, 3, 4, 5, 6}"), ("ycbcr422", "sys", 64, "{12, 13, 14, 15, 9, 10, 11, 11}"), ("raw", "sys", 8, "{6, 7, 8, 8, 4, 5, 6, 7}")):
        d = dict(DW=16 if mode == "ycbcr422" else 32, MASK=(1 << MASK[mode]) - 1, DEPTH=depth, QD=80, FMT=fmt, NV=24000 if tier == "thorough" else 960, CREADY=0, READY=0)
        if mode == "raw":
            d["RAW"] = 1
        if cd != "sys":
            d["DUAL"] = 1
        J.append(Job("long-%s-%s-%d" % (mode, cd, depth), core(mode, depth, cd), "outcore.cpp", sweep=True, defines=d, threads=2,
                     covers={**C, 1: "frame from buffer 1", 3: "stopped", 4: "underflow count read", 5: "underflow counted"}))
    # real sizes, near the end of memory
    for mode, depth in (("rgb", 16), ("ycbcr422", 16), ("raw", 16)):
        d = dict(DW=16 if mode == "ycbcr422" else 32, MASK=(1 << MASK[mode]) - 1, DEPTH=depth, RAW=int(mode == "raw"))
        J.append(Job("big-" + mode, core(mode, depth, aw=24), "bigframe.cpp", sweep=True, defines=d, threads=3, traces=2, conform_cycles=3000,
                     covers={0: "word", 1: "frame completed"}))
    return J
