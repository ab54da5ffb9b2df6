#!/usr/bin/env python3
"""seed.py save ID        store /repo's working tree diff as seeded/ID/patch.diff and undo it
   seed.py verify ID...   confirm: applies, passes the tests, demo passes without and fails with it; run the check"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sh = lambda c, **k: subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
base = set(json.load(open("/opt/vp/BASELINE.json")).get("passed") or json.load(open("/opt/vp/BASELINE.json")).get("stable") or [])

def main():
    if sys.argv[1] == "save":
        d = os.path.join(V, "seeded", sys.argv[2]); os.makedirs(d, exist_ok=True)
        p = sh("git -C /repo diff").stdout
        assert p.strip(), "no diff"
        open(d + "/patch.diff", "wb").write(p)
        sh("git -C /repo checkout -- .")
        return
    checks = "--nochecks" not in sys.argv
    for i in [a for a in sys.argv[2:] if not a.startswith("--")]:
        d = os.path.join(V, "seeded", i)
        meta = json.load(open(d + "/meta.json"))
        assert not sh("git -C /repo status --porcelain").stdout.strip(), "dirty /repo"
        sh("bash /opt/vp/build.sh")
        r0 = sh("bash %s/demo.sh" % d, cwd="/repo", timeout=300)
        a = sh("git -C /repo apply %s/patch.diff" % d)
        try:
            if a.returncode:
                print(i, "PATCH DOES NOT APPLY", a.stdout.decode()); continue
            t = sh("bash /opt/vp/test.sh /tmp/seed_o.json", timeout=600)
            o = json.load(open("/tmp/seed_o.json"))
            missing = sorted(base - set(o["passed"]))
            r1 = sh("bash %s/demo.sh" % d, cwd="/repo", timeout=300)
            c = "-"
            if checks:
                q = sh("python3 run.py %s quick" % meta["property"], cwd=V, timeout=1200)
                c = "caught" if q.returncode == 1 and b"VIOLATION property=%s " % meta["property"].encode() in q.stdout else "MISSED rc=%d" % q.returncode
            good = r0.returncode == 0 and r1.returncode != 0 and not missing
            print(i, meta["property"], "valid" if good else "INVALID demo0=%d demo1=%d missing=%s" % (r0.returncode, r1.returncode, missing[:5]), c, flush=True)
            if r0.returncode: print(r0.stdout.decode(errors="replace")[-800:])
            if r1.returncode == 0: print(r1.stdout.decode(errors="replace")[-800:])
        finally:
            sh("git -C /repo checkout -- .")
    sh("bash /opt/vp/build.sh")
main()
