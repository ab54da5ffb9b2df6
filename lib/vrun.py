"""Common machinery of the checks: building /repo's sources, running explorers, evidence, violations."""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
NPROC = max(2, os.cpu_count() or 8)

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
VARIANTS = {
    "asan": (["-O1", "-g", "-U_FORTIFY_SOURCE"] + SAN, SAN),
    "plain": (["-O1", "-g", "-U_FORTIFY_SOURCE", "-fno-omit-frame-pointer"], []),
}
COMPONENTS = ["common", "blogc", "blogc-make", "blogc-runserver", "blogc-git-receiver"]


class Broken(Exception):
    """The program does not do in the plainest case what the check builds on: a violation"""


CURRENT = None


class BuildError(Exception):
    pass


def config_h(dirname):
    src = open(os.path.join(REPO, "config.h.in")).read()
    out = []
    for line in src.split("\n"):
        if line.startswith("#cmakedefine"):
            rest = line[len("#cmakedefine"):].strip()
            rest = rest.replace("@PACKAGE_VERSION@", "0.0.0")
            out.append("#define " + rest)
        else:
            out.append(line)
    with open(os.path.join(dirname, "config.h"), "w") as f:
        f.write("\n".join(out))


def src_hash(extra=()):
    h = hashlib.sha256()
    for p in sorted(glob.glob(os.path.join(REPO, "src", "*", "*.[ch]")) + [os.path.join(REPO, "config.h.in")]):
        h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    for e in extra:
        h.update(repr(e).encode())
    return h.hexdigest()[:20]


def run_cc(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout.decode(errors="replace"))


def build_objs(variant="asan", extra_cflags=()):
    """Compiles every source file of /repo; returns (dir, {component: [objects]}, {component: main object})."""
    cflags = VARIANTS[variant][0] + list(extra_cflags)
    key = src_hash([variant, cflags])
    d = os.path.join(BUILD, variant + "-" + key)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        jobs, objs, mains = [], {}, {}
        for comp in COMPONENTS:
            objs[comp] = []
            for c in sorted(glob.glob(os.path.join(REPO, "src", comp, "*.c"))):
                o = os.path.join(d, comp + "__" + os.path.basename(c)[:-2] + ".o")
                if os.path.basename(c) == "main.c":
                    mains[comp] = o
                else:
                    objs[comp].append(o)
                jobs.append((c, o))
        if not os.path.exists(os.path.join(d, ".done")):
            config_h(d)
            def one(j):
                run_cc(["gcc", "-std=gnu99", "-w", "-DHAVE_CONFIG_H", "-I" + d, "-I" + os.path.join(REPO, "src")] + cflags +
                       ["-c", j[0], "-o", j[1]])
            with ThreadPoolExecutor(NPROC) as ex:
                list(ex.map(one, jobs))
            open(os.path.join(d, ".done"), "w").close()
    return d, objs, mains


def harness(name, comps, variant="asan", ldflags=(), src=None, defs=(), traced=()):
    """Builds harness/<name>.cpp against the given components; returns the path of the executable."""
    with ThreadPoolExecutor(2) as ex:
        fut = ex.submit(build_objs, variant)
        d0 = os.path.join(BUILD, "h")
        os.makedirs(d0, exist_ok=True)
        d, objs, mains = fut.result()
    srcf = os.path.join(VERIF, "harness", (src or name) + ".cpp")
    exe = os.path.join(d, "h_" + name + ("_" + str(len(traced)) if traced else ""))
    with open(exe + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        cflags, lflags = VARIANTS[variant]
        cmd = ["g++", "-std=c++17", "-w", "-DHAVE_CONFIG_H", "-I" + d, "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(VERIF, "lib"),
               "-I" + os.path.join(VERIF, "harness")] + cflags + list(defs) + [srcf]
        if traced:   # components compiled with a call at every basic block
            tobjs = build_objs(variant, ["-fsanitize-coverage=trace-pc"])[1]
        for c in comps:
            cmd += tobjs[c] if c in traced else objs[c]
        run_cc(cmd + ["-o", exe] + lflags + list(ldflags) + ["-lm", "-lpthread"])
    return exe


def binaries(variant="plain", which=("blogc", "blogc-make", "blogc-runserver", "blogc-git-receiver"), extra_cflags=()):
    """Links the real programs; returns {name: path}."""
    d, objs, mains = build_objs(variant, extra_cflags)
    deps = {"blogc": ["blogc", "common"], "blogc-make": ["blogc-make", "common"], "blogc-runserver": ["blogc-runserver", "common"],
            "blogc-git-receiver": ["blogc-git-receiver", "common"], "blogc-embedded": ["blogc", "blogc-make", "common"]}
    if "blogc-embedded" in which:     # blogc with blogc-make inside
        mains["blogc-embedded"] = mains["blogc"]
        objs["blogc-make"] = objs["blogc-make"] + [mains["blogc-make"]]
    res = {}
    bd = os.path.join(d, "bin")
    os.makedirs(bd, exist_ok=True)
    def one(w):
        exe = os.path.join(bd, w)
        tmp = exe + ".%d" % os.getpid()
        cmd = ["gcc"] + [mains[w]]
        for c in deps[w]:
            cmd += objs[c]
        run_cc(cmd + ["-o", tmp] + VARIANTS[variant][1] + ["-lm", "-lpthread"])
        os.rename(tmp, exe)
        return w, exe
    with ThreadPoolExecutor(4) as ex:
        for w, exe in ex.map(one, which):
            res[w] = exe
    return res


def shim(name, flags=()):
    src = os.path.join(VERIF, "shim", name + ".c")
    h = hashlib.sha256(open(src, "rb").read() + repr(flags).encode()).hexdigest()[:16]
    so = os.path.join(BUILD, "shim-%s-%s.so" % (name, h))
    os.makedirs(BUILD, exist_ok=True)
    if not os.path.exists(so):
        tmp = so + ".%d" % os.getpid()
        run_cc(["gcc", "-O1", "-g", "-w", "-fPIC", "-shared", "-D_GNU_SOURCE"] + list(flags) + ["-o", tmp, src, "-ldl", "-lpthread"])
        os.rename(tmp, so)
    return so


def tool(name, libs=()):
    src = os.path.join(VERIF, "shim", name + ".c")
    exe = os.path.join(BUILD, name)
    os.makedirs(BUILD, exist_ok=True)
    tmp = exe + ".%d" % os.getpid()
    run_cc(["gcc", "-O1", "-g", "-w", "-D_GNU_SOURCE", "-o", tmp, src] + list(libs))
    os.rename(tmp, exe)
    return exe


# ------------------------------------------------------------------------------------------------ known findings
def known_findings(pid):
    """Lines 'finding: property=<id> key=<key> <text>' of KNOWN_FINDINGS.txt."""
    res = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                rest = line.split("key=", 1)[1]
                key, _, text = rest.partition(" ")
                res[key] = text
    return res


# ------------------------------------------------------------------------------------------------ a check run
class Check:
    def __init__(self, pid, tier, level="model_checking"):
        global CURRENT
        CURRENT = self
        self.pid, self.tier, self.level = pid, tier, level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "evaluations": 0, "distinct_nontrivial": 0,
                    "samples": [], "tally": {}, "rule": "", "exhaustive": True}
        self.assumptions = []
        self.violations = []   # (key, message, replay dict)
        self.known = known_findings(pid)
        self.known_seen = {}
        shutil.rmtree(os.path.join(VERIF, "replay", pid), ignore_errors=True)

    def log(self, *a):
        print("[%s %s %.1fs]" % (self.pid, self.tier, time.time() - self.t0), *a, flush=True)

    def add(self, states=0, transitions=0, validated=0, evaluations=0, distinct=0, tally=None, samples=(), complete=True):
        c = self.cov
        c["states"] += states
        c["transitions"] += transitions
        c["traces_validated_against_impl"] += validated
        c["evaluations"] += evaluations
        c["distinct_nontrivial"] += distinct
        for k, v in (tally or {}).items():
            c["tally"][k] = c["tally"].get(k, 0) + v
        for s in samples:
            if len(c["samples"]) < 24:
                c["samples"].append(s)
        if not complete:
            c["exhaustive"] = False

    def violation(self, key, msg, replay):
        """key identifies the failing input; replay is a JSON-able description of how to run it again."""
        if key in self.known:
            self.known_seen[key] = self.known[key]
            return
        self.violations.append((key, msg, replay))

    def run_harness(self, exe, args=(), budget=None, hang=20, env=None):
        """Runs an in-process explorer; violations are replayed twice, alone, before they count."""
        if budget is None:
            budget = 400 if self.tier == "quick" else 3000
        d = os.path.join(BUILD, "out-%s-%d" % (self.pid, os.getpid()))
        os.makedirs(d, exist_ok=True)
        out = os.path.join(d, "r.json")
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:" + e.get("VERIF_ASAN", "")
        e["UBSAN_OPTIONS"] = "print_stacktrace=1"
        e["TZ"] = "UTC"
        e["LC_ALL"] = "C"
        e.update(env or {})
        import procs
        e["VERIF_SCRATCH"] = procs.scratch(self.pid)
        cmd = [exe, "--tier", self.tier, "--out", out, "--workers", str(NPROC), "--budget", str(budget), "--hang", str(hang)] + list(args)
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=d)
        if p.returncode != 0:
            sys.stdout.write(p.stdout.decode(errors="replace")[-4000:])
            raise RuntimeError("explorer failed with status %d" % p.returncode)
        r = json.load(open(out))
        self.add(states=r["states"], transitions=r["transitions"], validated=r["validated"] or r["cases"], evaluations=r["cases"],
                 distinct=r["outcomes"], tally=r["tally"], samples=r["samples"], complete=r["complete"] or bool(r["violations"]))
        self.log("%s %s: cases=%d states=%d transitions=%d outcomes=%d complete=%s violations=%d wall=%.1f" % (
            os.path.basename(exe), " ".join(args), r["cases"], r["states"], r["transitions"], r["outcomes"], r["complete"], len(r["violations"]), r["wall_s"]))
        cand = {}
        for v in r["violations"]:
            cand.setdefault(v["hex"], v)
        cand = list(cand.values())[:8]

        def again(n):
            rf = os.path.join(d, "case%d.hex" % n)
            open(rf, "w").write(cand[n]["hex"])
            oks, txt = 0, ""
            for _ in range(2):
                try:
                    q = subprocess.run([exe, "--replay", rf], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=d, timeout=hang * 1.5)
                    txt = q.stdout.decode(errors="replace")
                    oks += q.returncode != 0
                except subprocess.TimeoutExpired:
                    oks += 1
                    txt = "timeout"
            return oks, txt
        with ThreadPoolExecutor(NPROC) as pool:
            res = list(pool.map(again, range(len(cand))))
        for v, (oks, txt) in zip(cand, res):
            if oks == 2:
                self.violation(v["hex"], v["msg"], {"kind": "harness", "harness": os.path.basename(exe), "args": list(args), "hex": v["hex"], "case": v["case"], "message": v["msg"], "replay_output": txt[-3000:]})
            else:
                self.log("not reproducible (%d/2), ignored: %s" % (oks, v["case"][:200]))
                self.cov["tally"]["unreproducible"] = self.cov["tally"].get("unreproducible", 0) + 1
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(e["VERIF_SCRATCH"], ignore_errors=True)
        return r

    def finish(self, rule, assumptions=()):
        self.cov["rule"] = rule
        c = dict(self.cov)
        evaluations, distinct = c["evaluations"], c["distinct_nontrivial"]
        if self.level == "model_checking":
            del c["evaluations"]
            c["distinct_outcomes"] = c.pop("distinct_nontrivial")
        else:
            for k in ("states", "transitions", "traces_validated_against_impl"):
                if not c[k] or k.startswith("traces"):
                    del c[k]
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": c,
              "assumptions": list(assumptions) + self.assumptions, "violations": [], "wall_s": round(time.time() - self.t0, 3)}
        rc = 0
        for key, text in sorted(self.known_seen.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, text))
        for n, (key, msg, replay) in enumerate(self.violations[:10]):
            d = os.path.join(VERIF, "replay", self.pid)
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%d.json" % n)
            replay = dict(replay)
            replay.update({"property": self.pid, "key": key, "message": msg, "how": "python3 run.py replay " + path})
            json.dump(replay, open(path, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            print("   " + msg.replace("\n", "\n   ")[:1500])
            ev["violations"].append({"replay": path, "message": msg[:500]})
            rc = 1
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", self.pid + ".json.tmp")
        json.dump(ev, open(tmp, "w"), indent=1)
        os.rename(tmp, os.path.join(VERIF, "evidence", self.pid + ".json"))
        print("%s %s: %s; evaluations=%d states=%d transitions=%d distinct=%d exhaustive=%s wall=%.1fs" % (
            self.pid, self.tier, "VIOLATED" if rc else "held", evaluations, c.get("states", 0), c.get("transitions", 0), distinct, c["exhaustive"], time.time() - self.t0))
        return rc
