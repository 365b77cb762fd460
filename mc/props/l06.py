from props.common import Job


def chan(k):
    def f():
        from litevideo.input.decoding import DecodeTERC4Channel
        from migen import ClockDomainsRenamer
        m = ClockDomainsRenamer("pix")(DecodeTERC4Channel(k))
        v = m.decval
        return dict(module=m, inputs=dict(raw=m.data_in.raw, d=m.data_in.d, c=m.data_in.c, de=m.data_in.de, valid=m.valid_in),
                    outputs=dict(c_valid=v.c_valid, co=v.c, dgb=v.dgb, vgb=v.vgb, deo=v.de, dt=v.d), clocks=["pix"], edges=[("pix",)])
    return f


def top():
    from litevideo.input.decoding import DecodeTERC4
    from migen import ClockDomainsRenamer
    m = ClockDomainsRenamer("pix")(DecodeTERC4())
    i = dict(valid=m.valid_i, dvi=m.dvimode.storage)
    for k in range(3):
        for f in ("raw", "d", "c", "de"):
            i["%s%d" % (f, k)] = getattr(getattr(m, "data_in%d" % k), f)
    return dict(module=m, inputs=i, outputs=dict(de=m.de_o, terc4=m.encoding_terc4, ev=m.encrypting_video, ed=m.encrypting_data), clocks=["pix"], edges=[("pix",)])


COV = {0: "pixel", 1: "not a pixel", 2: "video preamble", 3: "island preamble",
       4: "guard band of an island", 5: "packet character", 6: "flag of a pixel"}


def jobs(tier):
    return [Job("class-ch%d" % k, chan(k), "terc4ch.cpp", sweep=True, covers={0: "character"}, defines=dict(CH=k), traces=2) for k in range(3)] + \
           [Job("hdmi-periods", top, "terc4.cpp", covers=COV, defines=dict(DVI=0, VMIN=1)),
            Job("any-order", top, "terc4.cpp", covers={**COV, 7: "periods given up", 8: "guard band without its preamble", 9: "disturbed character"}, defines=dict(DVI=0, VMIN=1, LOOSE=1)),
            Job("dvi-mode", top, "dvide.cpp", covers={0: "blanking", 1: "pixel"})]
