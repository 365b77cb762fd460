from props.common import Job
from props.t01 import terminal, header


def jobs(tier):
    J = []
    n = 4 if tier == "quick" else 64
    for k, p in (("default", False), ("custom", True), ("empty", False)):
        J.append(Job("walk-" + k, terminal(k, p), "termbus.cpp", sweep=True, covers={0: "read", 1: "write"}, defines=dict(NV=n), header=header(k), traces=1, conform_cycles=9000))
    J.append(Job("sequences", terminal("custom"), "termbus.cpp", covers={0: "read", 1: "write"}, header=header("custom"), traces=2))
    return J
