from props.common import Job


def build(req):
    def f():
        from litevideo.input.charsync import CharSync
        m = CharSync(required_controls=req)
        return dict(module=m, inputs=dict(raw=m.raw_data),
                    outputs=dict(data=m.data, synced=m.synced, char_synced=m._char_synced.status, ctl_pos=m._ctl_pos.status),
                    clocks=["sys", "pix"], edges=[("sys", "pix"), ("sys",), ("pix",)])
    return f


def default():
    from litevideo.input.charsync import CharSync
    m = CharSync()
    return dict(module=m, inputs=dict(raw=m.raw_data),
                outputs=dict(data=m.data, synced=m.synced, char_synced=m._char_synced.status, ctl_pos=m._ctl_pos.status),
                clocks=["sys", "pix"], edges=[("sys", "pix"), ("sys",), ("pix",)])


SC = {0: "scenario", 1: "locked", 2: "first phase acquired", 3: "too few controls at another phase", 4: "second phase acquired"}
BC = {1: "locked", 2: "acquired", 3: "slip"}


def jobs(tier):
    J = [Job("charsync-default", default, "charsync.cpp", sweep=True, threads=2, covers=SC, defines=dict(REQ=8), traces=3),
         Job("charsync-req3", build(3), "charsync.cpp", sweep=True, threads=1, covers=SC, defines=dict(REQ=3), traces=3),
         Job("charsync-bfs2", build(2), "charsync.cpp", threads=5, covers=BC, defines=dict(REQ=2, NSLIP=1), max_depth=17, max_states=30000000)]
    J += [Job("charsync-%s" % n.lower(), build(3), "charsync.cpp", sweep=True, threads=1, covers=SC, defines={"REQ": 3, n: 3}, traces=3) for n in ("FAST", "SLOW")]
    if tier == "thorough":
        J.append(Job("charsync-bfs3", build(3), "charsync.cpp", threads=8, covers=BC, defines=dict(REQ=3, NSLIP=2), max_depth=20, max_states=40000000))
    return J
