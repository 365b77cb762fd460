from props.common import Job, stream_spec
TECHNIQUE = "explicit-state model checking of the elaborated design (exhaustive input enumeration through the pipeline)"

ABC = "abc"


def to_half():
    from litevideo.csc.rgb2rgb16f import RGB2RGB16f
    return RGB2RGB16f()


def to_pix():
    from litevideo.csc.rgb16f2rgb import RGB16f2RGB
    return RGB16f2RGB()


def round_trip():
    from migen import Module
    m = Module()
    m.submodules.a = a = to_half()
    m.submodules.b = b = to_pix()
    m.comb += a.source.connect(b.sink)
    m.sink, m.source = a.sink, b.source
    return m


def lut():
    from migen import Module
    from litex.soc.interconnect import stream
    from litex.soc.interconnect.stream import PipelinedActor, EndpointDescription
    from litevideo.csc.rgb2rgb16f import PIX2PIXFLUT

    class LUT(PipelinedActor, Module):
        def __init__(self):
            self.sink = stream.Endpoint(EndpointDescription([("pix", 8)]))
            self.source = stream.Endpoint(EndpointDescription([("pixf", 16)]))
            self.submodules.dp = PIX2PIXFLUT(8, 16)
            PipelinedActor.__init__(self, self.dp.latency)
            self.comb += [self.dp.ce.eq(self.pipe_ce), self.dp.sink.pix.eq(self.sink.pix),
                          self.source.pixf.eq(self.dp.source.pixf)]
    return LUT()


RGB = dict(r="a", g="b", b="c")
RGBF = dict(rf="a", gf="b", bf="c")


def units():
    u = '"u_float.hpp"'
    return dict(
        to_half=(stream_spec(to_half, "rgb", ["rf", "gf", "bf"], rename_in=RGB, rename_out=RGBF), dict(UNIT=u, U_PIX2F=1)),
        to_pix=(stream_spec(to_pix, ["rf", "gf", "bf"], "rgb", rename_in=RGBF, rename_out=RGB), dict(UNIT=u, U_F2PIX=1)),
        lut=(stream_spec(lut, ["pix"], ["pixf"], rename_in=dict(pix="a"), rename_out=dict(pixf="a")), dict(UNIT=u, U_PIX2F1=1)),
        round=(stream_spec(round_trip, "rgb", "rgb", rename_in=RGB, rename_out=RGB), dict(UNIT=u, U_ROUND=1)))


def jobs(tier):
    from props import c06      # nothing lost under any schedule
    return [Job("half-" + n, s, "pipe.cpp", sweep=True, threads=2, covers={0: "value checked"}, defines=d)
            for n, (s, d) in units().items()] + c06.jobs(tier, ['to_half', 'to_pix'])
