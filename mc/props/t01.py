import os
from props.common import Job
from run import REPO

FONT = [((a * 73) ^ (a >> 4) * 41 ^ 0x3c) & 255 for a in range(4096)]
SCREEN = [((a * 29) ^ (a >> 6) * 57) & 255 for a in range(4800)]


def files(kind):
    """(screen, font) bytes the memory must hold after reset."""
    if kind == "default":
        try:
            d = os.path.join(REPO, "litevideo/terminal")
            return list(open(os.path.join(d, "screen-init.bin"), "rb").read()), list(open(os.path.join(d, "cp437.bin"), "rb").read())
        except OSError:
            return [0]*4800, [0]*4096
    if kind == "empty":
        return [0]*4800, [0]*4096
    return SCREEN, FONT


def header(kind):
    s, f = files(kind)
    return "static const uint8_t INITIAL[8896] = {%s};" % ",".join(map(str, s + f))


def terminal(kind, pads=False):
    def f():
        import tempfile
        from migen import Signal
        from litevideo.terminal.core import Terminal
        p = None
        if pads:
            class P:
                pass
            p = P()
            p.red, p.green, p.blue, p.hsync, p.vsync = Signal(8), Signal(8), Signal(8), Signal(), Signal()
        if kind == "default":
            m = Terminal(p)
        elif kind == "empty":
            m = Terminal(p, "", "")
        else:
            with tempfile.TemporaryDirectory() as d:
                for n, v in (("s", SCREEN), ("f", FONT)):
                    with open(os.path.join(d, n), "wb") as o:
                        o.write(bytes(v))
                m = Terminal(p, font_filename=os.path.join(d, "f"), screen_init_filename=os.path.join(d, "s"))
        b, v = m.bus, p or m
        return dict(module=m, inputs=dict(cyc=b.cyc, stb=b.stb, we=b.we, adr=b.adr, dat_w=b.dat_w, sel=b.sel),
                    outputs=dict(ack=b.ack, dat_r=b.dat_r, red=v.red, green=v.green, blue=v.blue, hsync=v.hsync, vsync=v.vsync),
                    clocks=["sys", "vga"], edges=[("sys",), ("vga",), ("sys", "vga")])
    return f


def jobs(tier):
    C = {0: "character line shown", 1: "frame completed"}
    n = 96 if tier == "quick" else 2400
    return [Job("default", terminal("default"), "terminal.cpp", sweep=True, covers={**C, 2: "shown while it changes"}, defines=dict(NV=n, LONG=136 if tier == "quick" else 520), header=header("default"), threads=5, traces=2, conform_cycles=36000),
            Job("pads-custom", terminal("custom", True), "terminal.cpp", sweep=True, covers=C, defines=dict(NV=max(3, n // 8), LONG=2), header=header("custom"), threads=3, traces=1, conform_cycles=33000)]
