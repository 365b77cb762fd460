from props.common import Job, with_reset


class Pads:
    pass


def build(hpd=True, pupd=False, inv=False, rom=None, receiver=None, sw=False):
    def f():
        from migen import Signal, If, Mux
        from migen.fhdl.specials import Tristate
        from litevideo.input.edid import EDID
        p = Pads()
        p.scl, p.sda = Signal(name="scl"), Signal(name="sda")
        if hpd:
            p.hpd_notif, p.hpd_en = Signal(name="hpd_notif"), Signal(name="hpd_en")
        if pupd:
            p.sda_pu, p.sda_pd = Signal(name="pu"), Signal(name="pd")
        if inv:
            p.scl.inverted = p.hpd_notif.inverted = True
            if pupd:
                p.sda.inverted = True
        if receiver:
            from litevideo.input import HDMIIn
            from props.v06 import pads
            for n, x in vars(pads()).items():
                setattr(p, n, x)
            top = HDMIIn(p, device=receiver, default_edid=rom)
            m, frag = top.edid, with_reset(top.get_fragment(), ["sys", "pix", "pix1p25x" if receiver == "xc7" else "pix2x"])
        else:
            m = EDID(p, rom) if rom else EDID(p)
            if sw:                                          # the memory on a CSR bus
                from migen import Module
                from litex.soc.interconnect.csr_bus import Interface, SRAM
                ro, mem = m.get_memories()[0] if isinstance(m.get_memories()[0], tuple) else (False, m.get_memories()[0])
                top = Module()
                top.submodules.edid = m
                bus = Interface(8, 14)
                top.submodules.sram = SRAM(mem, 0, read_only=ro, bus=bus)
                frag = top.get_fragment()
            else:
                frag = m.get_fragment()
        i = dict(scl=p.scl, sda=p.sda, en=m._hpd_en.storage)
        o = dict(notif_st=m._hpd_notif.status)
        if hpd:
            i["notif"], o["hpd_en"] = p.hpd_notif, p.hpd_en
        else:
            i["notif"], o["hpd_en"] = Signal(name="unused"), Signal(name="unused_en")
        if pupd:
            o["oe"], o["o"] = p.sda_pd, p.sda_pu
        else:
            t = [s for s in frag.specials if isinstance(s, Tristate)][0]
            o["oe"], o["o"] = t.oe, t.o
        if sw:
            i.update(adr=bus.adr, we=bus.we, wdat=bus.dat_w)
            o.update(rdat=bus.dat_r)
        return dict(module=frag, inputs=i, outputs=o, clocks=["sys"], edges=[("sys",)])
    return f


def defs(hpd=True, pupd=False, inv=False, **kw):
    d = dict(HASEN=int(hpd), HASNOTIF=int(hpd), INVS=int(inv), INVN=int(inv), INVD=int(inv and pupd))
    d.update(kw)
    return d


ROM = [((a * 167) + (a >> 3) * 29 + 0x5b) & 255 for a in range(256)]
BC = {0: "actions", 1: "addressed", 2: "not addressed", 3: "offset", 4: "data", 5: "read on", 6: "read end", 8: "byte after an offset"}


def jobs(tier):
    try:
        import inspect
        from litevideo.input.edid import EDID
        default = [p.default for p in inspect.signature(EDID.__init__).parameters.values() if isinstance(p.default, (list, tuple, bytes))][0]
    except Exception:
        default = [0]*128      # the job reports that nothing can be elaborated
    ab = dict(ABM=0x89) if tier == "quick" else {}
    ms = 1500000 if tier == "quick" else 12000000
    J = [Job("default", build(), "edid.cpp", sweep=True, covers={0: "transfers"}, threads=3, traces=1,
             defines=defs(DEFROM=",".join(map(str, default)), ROMSZ=len(default))),
         Job("pupd-inverted", build(True, True, True, ROM), "edid.cpp", sweep=True, covers={0: "transfers"}, threads=2, traces=1, defines=defs(True, True, True)),
         Job("no-hpd-128", build(False, False, False, ROM[:128]), "edid.cpp", sweep=True, covers={0: "transfers"}, threads=2, traces=1, defines=defs(False, ROMSZ=128, Q=80)),
         Job("software", build(True, False, False, ROM, sw=True), "edid.cpp", sweep=True, covers={0: "transfers", 1: "software reads"}, threads=4, traces=1, defines=defs(SW=1)),
         Job("receiver-xc7", build(True, False, False, ROM, "xc7"), "edid.cpp", sweep=True, covers={0: "transfers"}, traces=1, defines=defs(Q=80)),
         Job("receiver-xc6", build(True, False, False, ROM, "xc6"), "edid.cpp", sweep=True, covers={0: "transfers"}, traces=1, defines=defs(Q=80)),
         Job("histories", build(True, False, False, ROM[:128]), "edid.cpp", covers={**BC, 7: "disabled"}, defines=defs(ROMSZ=128, **ab), threads=8, max_states=ms, traces=2, walk=8),
         Job("histories-no-hpd", build(False, True, False, ROM), "edid.cpp", covers=BC, defines=defs(False, True, **ab), threads=8, max_states=ms, traces=2, walk=8)]
    return J
