from props.common import Job


def build(hdmi):
    def f():
        from litevideo.input.analysis import SyncPolarity
        m = SyncPolarity(True) if hdmi else SyncPolarity()
        i = dict(valid=m.valid_i)
        for k in range(3):
            for n in ("raw", "d", "c", "de"):
                i["%s%d" % (n, k)] = getattr(getattr(m, "data_in%d" % k), n)
        if hdmi:
            i["de_int"] = m.de_int
        return dict(module=m, inputs=i, outputs=dict(valid=m.valid_o, de=m.de, hsync=m.hsync, vsync=m.vsync, r=m.r, g=m.g, b=m.b, raw0=m.c0, raw1=m.c1, raw2=m.c2),
                    clocks=["pix", "pix_o"], edges=[("pix", "pix_o")])
    return f


COV = {0: "polarity known", 1: "hsync", 2: "vsync", 3: "pixel", 4: "after a change of polarity"}


def jobs(tier):
    return [Job("syncpol-dvi", build(False), "syncpol.cpp", covers=COV, max_states=3000000, threads=4),
            Job("syncpol-hdmi", build(True), "syncpol.cpp", covers=COV, defines=dict(EXTDE=1), max_states=3000000, threads=4)]
