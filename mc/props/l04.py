from props.common import Job


def build(n, depth=None):
    def f():
        from litevideo.input.chansync import ChanSync
        m = ChanSync(n, depth) if depth is not None else ChanSync()
        i, o = dict(valid=m.valid_i), dict(synced=m.chan_synced, csr=m._channels_synced.status)
        for k in range(n):
            for f in ("raw", "d", "c", "de"):
                i["%s%d" % (f, k)] = getattr(getattr(m, "data_in%d" % k), f)
                o["%s%d" % (f, k)] = getattr(getattr(m, "data_out%d" % k), f)
        return dict(module=m, inputs=i, outputs=o, clocks=["sys", "pix"], edges=[("sys", "pix"), ("sys",), ("pix",)])
    return f


SC = {0: "scenario", 1: "aligned cycle", 2: "aligned data", 3: "corrupted character", 4: "misalignment observed"}
BC = {1: "aligned cycle", 2: "aligned data", 3: "slip", 4: "misalignment observed"}


def jobs(tier):
    return [Job("chansync-3x8", build(3), "chansync.cpp", sweep=True, threads=4, covers=SC, defines=dict(NCH=3, DEPTH=8)),
            Job("chansync-2x4", build(2, 4), "chansync.cpp", sweep=True, threads=1, covers=SC, defines=dict(NCH=2, DEPTH=4)),
            Job("chansync-lines", build(2, 4), "chansync.cpp", threads=3, covers=BC, defines=dict(NCH=2, DEPTH=4, SLIPS=1), max_states=6000000)] \
        + [Job("chansync-%s" % n.lower(), build(2, 4), "chansync.cpp", sweep=True, threads=1, covers=SC, defines={"NCH": 2, "DEPTH": 4, n: 3}) for n in ("FAST", "SLOW")]
