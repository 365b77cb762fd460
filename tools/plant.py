#!/usr/bin/env python3
"""plant.py ID: makes seeded/ID/patch.diff from seeded/ID/edit.txt-like arguments and confirms it in a scratch copy.
usage: plant.py ID file old new [file old new ...]   (strings with \\n escapes)"""
import os, shutil, subprocess, sys
bid, rest = sys.argv[1], sys.argv[2:]
W = "/tmp/plant_" + bid
shutil.rmtree(W, ignore_errors=True)
subprocess.check_call(["cp", "-a", "/repo", W])
D = "/verif/seeded/" + bid
for k in range(0, len(rest), 3):
    f, a, b = rest[k], rest[k+1].replace("\\n", "\n"), rest[k+2].replace("\\n", "\n")
    s = open(os.path.join(W, f)).read()
    assert s.count(a) == 1, (f, a, s.count(a))
    open(os.path.join(W, f), "w").write(s.replace(a, b))
d = subprocess.check_output(["git", "-C", W, "diff"]).decode()
open(D + "/patch.diff", "w").write(d)
def demo(root):
    # the demonstration reads /repo: point it to the scratch copy through PYTHONPATH only for this check
    e = dict(os.environ, PYTHONPATH=root, PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run(["bash", D + "/demo.sh"], cwd=root, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return r.returncode, r.stdout.decode()[-400:]
print("clean  ", demo("/repo"))
print("patched", demo(W))
shutil.rmtree(W)
