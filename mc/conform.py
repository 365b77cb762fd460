"""Replay an explored trace on the real Migen Simulator and compare every observed output."""
from migen.sim import core
from migen.sim.core import Simulator
from migen.fhdl.simplify import MemoryToArray
from migen.fhdl.tools import list_targets
from migen.fhdl.structure import Signal
import time
import fhdl2c


class _Memories(MemoryToArray):
    """Memories keep their contents in a reset, as those of the devices do; the Simulator's arrays would not."""
    def transform_fragment(self, i, f):
        MemoryToArray.transform_fragment(self, i, f)
        for storage in self.replacements.values():
            for s in storage:
                s.reset_less = True


core.MemoryToArray = _Memories


class Mismatch(Exception):
    pass


class Replayer:
    def __init__(self, spec):
        self.f, self.ins, self.outs = fhdl2c.prepare(spec["module"], spec["inputs"], spec["outputs"], spec["clocks"])
        self.edges = [tuple(e) for e in spec["edges"]]
        ov = dict(fhdl2c.OVERRIDES)
        self.sim = Simulator(self.f, {}, {cd: 10 for cd in spec["clocks"]}, special_overrides=ov)
        self.frag = self.sim.fragment
        self.fresh = True

    def reset(self):
        ev = self.sim.evaluator
        for k in range(len(ev.signal_values)):
            ev.signal_values[k] = None
        ev.modifications.clear()
        self.sim.evaluator.execute(self.frag.comb)
        self.sim._commit_and_comb_propagate()

    def replay(self, path, max_cycles=None, seconds=None):
        """Returns (#comb evaluations compared, #edges)."""
        self.reset()
        ev = self.sim.evaluator
        innames = outnames = None
        ncmp = nedge = 0
        prev = {}
        end = seconds and time.time() + seconds
        with open(path) as fh:
            for ln, line in enumerate(fh):
                if line[0] == "I":
                    innames = line.split()[1:]
                elif line[0] == "O":
                    outnames = line.split()[1:]
                elif line[0] == "C":
                    a, b = line[1:].split("|")
                    for n, v in zip(innames, a.split()):
                        if prev.get(n) != v:
                            prev[n] = v
                            ev.assign(self.ins[n], int(v, 16))
                    self.sim._commit_and_comb_propagate()
                    for n, v in zip(outnames, b.split()):
                        s = self.outs[n]
                        got = ev.eval(s) & ((1 << s.nbits) - 1)
                        if got != int(v, 16):
                            raise Mismatch("%s line %d: output %s is %x in the Simulator, %s in the model"
                                           % (path, ln + 1, n, got, v))
                    ncmp += 1
                elif line[0] == "E":
                    if max_cycles is not None and nedge >= max_cycles or end and nedge % 256 == 0 and time.time() > end:
                        break
                    for cd in self.edges[int(line[1:])]:
                        if cd in self.frag.sync:
                            ev.execute(self.frag.sync[cd])
                    self.sim._commit_and_comb_propagate()
                    nedge += 1
        return ncmp, nedge
