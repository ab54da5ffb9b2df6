#!/usr/bin/env python3
"""mkseed.py FILE: FILE is python defining SEEDS = [(id, property, [(path, old, new)], demo_text, needs, breaks)]"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
for sid, prop, edits, demo, needs, breaks in ns["SEEDS"]:
    d = os.path.join(V, "seeded", sid); os.makedirs(d, exist_ok=True)
    for path, old, new in edits:
        p = os.path.join("/repo", path); s = open(p).read()
        assert s.count(old) == 1, (sid, path, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    out = subprocess.run("git -C /repo diff", shell=True, stdout=subprocess.PIPE).stdout
    open(d + "/patch.diff", "wb").write(out)
    subprocess.run("git -C /repo checkout -- .", shell=True)
    open(d + "/demo.sh", "w").write("#!/bin/bash\n" + demo.lstrip("\n"))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    print(sid)
