#!/usr/bin/env python3
import json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import meta
V = os.path.dirname(HERE)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in meta.P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                         observe_at=p["observe"], hook_needed=None))) + "\n")
checks = [dict(property=p["id"], quick_cmd="python3 mc/check.py " + p["id"],
               thorough_cmd="VERIF_TIER=thorough python3 mc/check.py " + p["id"],
               technique="model checking: exhaustive explicit-state exploration of the elaborated RTL, traces replayed on the Migen Simulator",
               level="model_checking", level_note=(meta.BASE_NOTE + p["level_note"]).strip()) for p in meta.P]
m = dict(version=1, setup_cmd="clang++ --version && /opt/venv/bin/python -c 'import migen, litex'", checks=checks,
         not_applicable=getattr(meta, "NA", []),
         notes="python3 mc/check.py <ID> decides one property; tools/gen.py regenerates this file and properties.jsonl from tools/meta.py.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
