#!/usr/bin/env python3
"""python3 run.py <property> [quick|thorough]     run a check
   python3 run.py replay <artefact.json>           run one reported violation again"""
import importlib, json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
sys.dont_write_bytecode = True
import vrun


class Fallback:
    def __init__(self, pid):
        import inproc
        self.pid, self.m = pid, inproc

    def main(self, tier):
        return self.m.main(self.pid, tier)

    def replay(self, a):
        return self.m.replay(a)


def load(pid):
    if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks", "check_%s.py" % pid)):
        return importlib.import_module("check_" + pid)
    return Fallback(pid)

if __name__ == "__main__":
    if len(sys.argv) < 2:
        sys.exit(__doc__)
    if sys.argv[1] == "replay":
        a = json.load(open(sys.argv[2]))
        mod = load(a["property"])
        sys.exit(mod.replay(a) if a["kind"] != "setup" else mod.main(a["tier"]))
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    os.environ["VERIF_TIER"] = tier
    mod = load(pid)
    try:
        rc = mod.main(tier)
    except vrun.Broken as e:
        vrun.CURRENT.violation("setup", str(e), {"kind": "setup", "tier": tier})
        rc = vrun.CURRENT.finish("setup only")
    sys.exit(rc)
