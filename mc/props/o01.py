from props.common import Job


def gen():
    from litevideo.output.core import TimingGenerator
    m = TimingGenerator()
    s, q = m.sink, m.source
    i = dict(valid=s.valid, hres=s.hres, hss=s.hsync_start, hse=s.hsync_end, hscan=s.hscan, vres=s.vres, vss=s.vsync_start, vse=s.vsync_end,
             vscan=s.vscan, ready=q.ready)
    o = dict(sready=s.ready, valid=q.valid, last=q.last, de=q.de, hsync=q.hsync, vsync=q.vsync)
    return dict(module=m, inputs=i, outputs=o, clocks=["sys"], edges=[("sys",)])


def jobs(tier):
    return [
        Job("schedules", gen, "timing.cpp", threads=4, covers={0: "position", 1: "frame completed", 2: "gap after a frame", 3: "back to back frames", 4: "withdrawn mid-frame"}, max_states=6000000, walk=300),
        Job("formats", gen, "timing.cpp", sweep=True, threads=4, covers={0: "position", 1: "frame completed"}, traces=4, conform_cycles=4000),
        Job("small-formats", gen, "timing.cpp", sweep=True, threads=4, defines=dict(SMALL=1), covers={0: "position", 1: "frame completed", 2: "withdrawn mid-frame"}, traces=4),
    ]
