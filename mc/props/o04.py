from props.common import Job


def pattern(name):
    def f():
        import litevideo.output.pattern as p
        m = getattr(p, name)()
        s = m.source
        return dict(module=m, inputs=dict(valid=m.sink.valid, hres=m.sink.hres, ready=s.ready), outputs=dict(valid=s.valid, r=s.r, g=s.g, b=s.b),
                    clocks=["sys"], edges=[("sys",)])
    return f


def jobs(tier):
    return [Job(n, pattern(n), "pattern.cpp", defines=dict(KIND=k), max_states=1500000 if tier == "quick" else 12000000, covers={0: "pixel", 1: "line completed"})
            for k, n in enumerate(("ColorBarsPattern", "VerticalLinesPattern", "DotsPattern"))]
