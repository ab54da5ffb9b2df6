"""Failures while building: every single fault at every call of blogc-make and its children, then a fault-free run; failing children; broken sites; copies of all sizes."""
import itertools, os, shutil
import mk, procs, vrun

RULE = "every file-system, pipe and process call of blogc-make, its shells and the blogc processes of a build failing, coming up short, or being the last one before the whole build is killed, in a fresh output directory and over an outdated one, for all rules and several ones (thorough: for each rule; calls of the children alike: 12 in the quick tier); every child failing in 12 ways; every rule with every one of 13 broken inputs; all lists of up to 3 rules with unknown ones; after each, a run without faults must give what a clean build gives; copies of every size up to 2100 (thorough 5000) with transfer limits"
RULES = ["index", "atom", "atom_tags", "pagination", "pagination_tags", "posts", "tags", "pages", "copy"]
T0 = 1600000000


def conf(extra=False):
    c = mk.Conf({"posts_per_page": "1", "listing_entry": "intro", "atom_template": "atom.tmpl"} if extra else {"posts_per_page": "2"}, posts=["p1", "p2"] if extra else ["p1"], pages=["about"], tags=["ta"], copy=["static", "one.txt"])
    c.files = {"static/a.css": b"x" * 1100, "static/d/e.css": b"", "one.txt": bytes(range(256)) * 11}
    return c


def age(root, sec=T0):
    for d, ds, fs in os.walk(root):
        for f in fs:
            os.utime(os.path.join(d, f), (sec, sec))


def site(d, c, state="fresh", name="site"):
    root = os.path.join(d, name)
    if state == "stale":
        old = mk.Conf(dict(c.given), dict(mk.GLOBALS, SITE_TITLE="an old and much longer title of the same site, which makes every output longer"), posts=c.posts, pages=c.pages, tags=c.tags, copy=c.copy)
        old.files = {k: b"old " * 1000 for k in c.files}
        procs.plant(root, old.tree())
        age(root, T0 - 1000)
        r = mk.make(root)
        if r.rc:
            raise vrun.Broken("plain build fails: %r" % r)
        age(root + "/_build", T0 - 500)
        procs.plant(root, c.tree())
        for k in c.tree():
            os.utime(os.path.join(root, k), (T0, T0))
    else:
        procs.plant(root, c.tree())
        age(root)
    return root


CLEAN = {}


def clean(c, d, rule=None):
    k = (c.text(), rule)
    if k not in CLEAN:
        root = site(d, c, name="clean")
        r = mk.make(root, [rule] if rule else [])
        if r.rc:
            raise vrun.Broken("plain build fails: %r" % r)
        CLEAN[k] = procs.tree(root + "/_build")
        shutil.rmtree(root)
    return CLEAN[k]


def repaired(root, c, want, what, bad, args=()):
    r = mk.make(root, args)
    t = procs.tree(root + "/_build")
    if r.rc:
        bad.append("%s: the next run fails: %r" % (what, r))
    elif t != want:
        bad.append("%s: after the next run: %s" % (what, procs.diff(want, t)))


def fault(case, d):
    """case: ("fault", rule, state, extra, program, number, mode, description)"""
    _, rule, state, extra, group, n, mode, desc = case
    d = procs.fresh(d)
    c = conf(extra)
    want = clean(c, d, None if rule == "all" else rule)
    root = site(d, c, state)
    srcs = {k: v for k, v in procs.tree(root).items() if not k.startswith("_build")}
    args = [] if rule == "all" else [rule]
    full = clean(c, d) if state == "stale" else want
    r = mk.make(root, args, fi=dict(dirs=[root, "/tmp", "/dev/shm"], names=GROUPS[group], classes="fpc", n=n, mode=mode))
    t = procs.tree(root + "/_build") if os.path.isdir(root + "/_build") else {}
    bad, what = [], "%s, %s output, %s" % (rule, state, desc)
    if r.rc == 124:
        bad.append("%s: blocks" % what)
    elif mode in ("kill", "torn", "killafter"):
        pass
    elif r.rc == 0:
        diff = {k: (v, t.get(k)) for k, v in want.items() if v != t.get(k)}
        if diff:
            bad.append("%s: exit 0, but %s" % (what, procs.diff({k: want[k] for k in diff}, {k: t[k] for k in diff if k in t})))
    else:
        if mode in ("short", "one"):
            bad.append("%s: fails: %r" % (what, r))
        if not r.err.strip():
            bad.append("%s: exit %d without a diagnostic" % (what, r.rc))
    if not bad:
        repaired(root, c, want if state == "fresh" else full, what, bad, args if state == "fresh" else ())
    now = {k: v for k, v in procs.tree(root).items() if not k.startswith("_build")}
    if now != srcs:
        bad.append("%s: sources changed: %s" % (what, procs.diff(srcs, now)))
    return {"bad": bad, "state": (rule, state, extra, group, n), "outcome": (mode, r.rc, repr(sorted(t))), "tally": {"exit 0" if r.rc == 0 else "killed" if "kill" in mode or mode == "torn" else "failed": 1}}


# the processes of a build run one after another but overlap with their shells: points are counted per program
GROUPS = {"make": ("blogc-make",), "sh": ("sh", "dash"), "blogc": ("blogc",)}


def listing(case, d):
    """The points of a run"""
    rule, state, extra, group = case
    d = procs.fresh(d)
    c = conf(extra)
    root = site(d, c, state)
    log = d + "/log"
    r = mk.make(root, [] if rule == "all" else [rule], fi=dict(dirs=[root, "/tmp", "/dev/shm"], names=GROUPS[group], classes="fpc", log=log))
    if r.rc:
        raise vrun.Broken("plain build fails: %r" % r)
    return {"bad": [], "points": procs.points(log)}


def child(case, d):
    """case: ("child", rule, state, n, how)"""
    _, rule, state, n, how = case
    d = procs.fresh(d)
    c = conf()
    args = [] if rule == "all" else [rule]
    want = clean(c, d, None if rule == "all" else rule)
    root = site(d, c, state)
    e = {"FAIL_REAL": mk.BIN["blogc"], "FAIL_AT": str(n), "FAIL_HOW": how, "FAIL_COUNT": d + "/count", "BLOGC": mk.BIN["failer"]}
    r = mk.make(root, args, **e)
    cnt = open(d + "/count").read() if os.path.exists(d + "/count") else ""
    bad, what = [], "%s, %s output, child %d (%s) ends with %s" % (rule, state, n, cnt[n - 1:n], how)
    if len(cnt) < n:
        if r.rc:
            bad.append("%s: never came: %r" % (what, r))
        return {"bad": bad, "state": case, "outcome": "beyond", "tally": {"beyond": 1}}
    if cnt[n - 1] == "p" and how[1:] == "78":   # the variable is not defined: there are no pages
        return {"bad": [], "state": case, "outcome": "undefined"}
    if r.rc == 0 or r.rc > 255:
        bad.append("%s: exit %d: %r" % (what, r.rc, r))
    if not r.err.strip():
        bad.append("%s: no diagnostic" % what)
    if "m" == how[0] and b"the reason" not in r.err:
        bad.append("%s: the message of the child is lost: %r" % (what, r))
    if len(cnt) > n:
        bad.append("%s: goes on with %r" % (what, cnt[n:]))
    repaired(root, c, want if state == "fresh" else clean(c, d), what, bad, args if state == "fresh" else ())
    return {"bad": bad, "state": case, "outcome": (r.rc, cnt), "steps": len(cnt)}


BROKEN = {
    "post": ("content/post/p1.txt", b"TITLE x\n---\n", "index atom atom_tags pagination pagination_tags posts tags"),
    "nopost": ("content/post/p1.txt", None, "index atom atom_tags pagination pagination_tags posts tags"),
    "postdir": ("content/post/p1.txt", "dir", "index atom atom_tags pagination pagination_tags posts tags"),
    "page": ("content/about.txt", b"TITLE x\n---\n", "pages"),
    "nopage": ("content/about.txt", None, "pages"),
    "template": ("templates/main.tmpl", b"{% block entry %}", "index pagination pagination_tags posts tags pages"),
    "notemplate": ("templates/main.tmpl", None, "index pagination pagination_tags posts tags pages"),
    "atom": ("templates/atom.tmpl", b"{% if %}", "atom atom_tags"),
    "noatom": ("templates/atom.tmpl", None, "atom atom_tags"),
    "entry": ("content/intro.txt", b"TITLE\n---\n", "index pagination pagination_tags tags"),
    "noentry": ("content/intro.txt", None, "index pagination pagination_tags tags"),
    "settings": ("blogcfile", b"[global]\nAUTHOR_NAME = x\n", "*"),
    "nosettings": ("blogcfile", None, "*"),
    "outfile": ("_build", b"a file where the outputs go", "*out"),
    "copydir": ("_build/one.txt/x", b"a directory where a copy goes", "copy"),
    "indexdir": ("_build/index.html/x", b"a directory where a page goes", "index"),
}


def broken(case, d):
    """case: ("broken", rule, what is broken, what was there before)"""
    _, rule, name, state = case
    d = procs.fresh(d)
    c = conf(True)
    args = [] if rule == "all" else [rule]
    want = clean(c, d, None if rule == "all" else rule)
    root = site(d, c, state)
    p, v, rules = BROKEN[name]
    f = os.path.join(root, p)
    if name in ("outfile", "copydir", "indexdir") and state == "stale":
        return {"bad": [], "outcome": "n/a"}
    good = c.tree().get(p)
    if os.path.lexists(f):
        os.unlink(f)
    if v == "dir":
        os.makedirs(f)
    elif v is not None:
        procs.plant(root, {p: v})
        os.utime(f, (T0 + 5, T0 + 5))
        if "/x" in p:   # an older directory: a newer one counts as up to date
            os.utime(os.path.dirname(f), (T0 - 50, T0 - 50))
    r = mk.make(root, args)
    mine = set(rules.split()) if rules[:1] != "*" else set(RULES)
    bad, what = [], "%s with broken %s (%s)" % (rule, name, state)
    hit = rule == "all" or rule in mine
    if hit and (r.rc == 0 or not r.err.strip()):
        bad.append("%s: %r" % (what, r))
    if not hit and r.rc:
        bad.append("%s, which it does not need: %r" % (what, r))
    if v == "dir":
        os.rmdir(f)
    elif v is not None:
        os.unlink(f)
        if "/x" in p:
            os.rmdir(os.path.dirname(f))
    if good is not None:
        procs.plant(root, {p: good})
        os.utime(f, (T0 + 10, T0 + 10))
    repaired(root, c, want if state == "fresh" else clean(c, d), what, bad, args if state == "fresh" else ())
    return {"bad": bad, "state": case, "outcome": (r.rc, repr(r.err)[:80])}


def unknown(case, d):
    _, rules, flags = case
    d = procs.fresh(d)
    c = conf()
    root = site(d, c)
    r = mk.make(root, list(flags) + list(rules))
    ok = all(x.split(":")[0] in ["all", "clean", "atom_dump"] + RULES for x in rules)
    bad = []
    if (r.rc == 0) != ok:
        bad.append("rules %r: %r" % (rules, r))
    if not ok and b"not found" not in r.err and not r.err:
        bad.append("rules %r: no diagnostic" % (rules,))
    return {"bad": bad, "state": rules, "outcome": (r.rc, repr(r.err)[:60])}


def copies(case, d):
    """case: ("copies", sizes from, to, transfer limit)"""
    _, lo, hi, k = case
    d = procs.fresh(d)
    c = mk.Conf((), posts=[], pages=[], tags=[], copy=["s"])
    c.files = {"s/%d" % n: bytes((n * 7 + i * (1 + i // 256)) & 255 for i in range(n)) for n in range(lo, hi)}
    root = os.path.join(d, "site")
    procs.plant(root, c.tree())
    r = mk.make(root, fi=dict(dirs=[root], classes="f", n=1, mode="max:%d" % k) if k else None, timeout=120)
    t = procs.tree(root + "/_build")
    want = {p: ("f", v) for p, v in c.files.items()}
    want["s"] = ("d",)
    bad = []
    if r.rc or t != want:
        wrong = [p for p in want if t.get(p) != want[p]]
        bad.append("copies of %d to %d bytes, at most %s at a time: exit %d, wrong: %r %r" % (lo, hi - 1, k, r.rc, wrong[:5], r.err[:200]))
    return {"bad": bad, "state": case, "outcome": len(t), "steps": hi - lo}


def run(case, d):
    return {"fault": fault, "child": child, "broken": broken, "unknown": unknown, "copies": copies}[case[0]](case, d)


def setup():
    mk.setup()
    mk.BIN["failer"] = vrun.tool("failer")


def main(tier):
    ck = vrun.Check("M04", tier)
    setup()
    th = tier == "thorough"
    # the points of every kind of run
    base = procs.scratch("M04pts")
    os.chmod(base, 0o711)
    kinds = [("all", "fresh", False), ("all", "stale", False)] + [(r, "fresh", True) for r in RULES] if th else [("all", "fresh", False), ("copy", "stale", True), ("index", "stale", False), ("pagination_tags", "stale", True)]
    if th:
        kinds += [("all", "stale", True)]
    cs = []
    for case, res, exc in procs._workers(listing, [k + (g,) for k in kinds for g in GROUPS], base, vrun.NPROC, True, lambda: False):
        if exc or res.get("bad"):
            if exc:
                raise RuntimeError(exc)
            ck.violation("plain", res["bad"][0], {"kind": "setup"})
            continue
        pts = [p for p in res["points"] if p["n"] > 0 and not p["what"].startswith(("/lib", "/usr", "/etc")) and not (p["call"] in ("read", "pread64", "openat", "close", "newfstatat", "fstat") and (".so" in p["what"]))]
        seen = {}
        for p in pts:   # children alike are taken once per program in the quick tier
            if not th and p["exe"] != "blogc-make":
                k = (p["exe"], p["call"], case)
                seen[k] = seen.get(k, 0) + 1
                if seen[k] > 12:
                    continue
            kinds_ = ("err", "short", "kill") if p["exe"] == "blogc-make" or th else ("err", "short")
            cs += [("fault",) + case + f for f in procs.faults([p], kinds_)]
    ck.log("%d single faults" % len(cs))
    for n in range(1, 14 if not th else 16):
        for how in ("x1", "x2", "x3", "x78", "x126", "x127", "x255", "k9", "k11", "k13", "m1", "m3", "p1", "q9", "p127"):
            cs += [("child", "all", st, n, how) for st in ("fresh", "stale")]
    for r in RULES:
        for n in (1, 2, 3):
            cs += [("child", r, "fresh", n, how) for how in (("x1", "k9", "m1", "p1", "q9", "x127") if not th else ("x1", "x2", "x3", "x78", "x126", "x127", "x255", "k9", "k11", "k13", "m1", "m3", "p1", "q9", "p127"))]
    cs += [("broken", r, b, st) for r in ["all"] + RULES for b in BROKEN for st in ("fresh", "stale")]
    v = ["all", "index", "copy", "nosuch", "indexx", "inde", "", "atom:x=1", "nosuch:x=1", "clean"]
    cs += [("unknown", rs, ()) for n in (1, 2, 3) for rs in itertools.product(v if n < 3 or th else ["all", "copy", "nosuch", "clean"], repeat=n)]
    top = 5000 if th else 2100
    cs += [("copies", lo, min(lo + 300, top), k) for lo in range(0, top, 300) for k in (0, 1023, 1024, 500)] + [("copies", 0, 40, k) for k in (1, 2, 7)] + [("copies", lo, lo + 12, k) for lo in (1020, 2042, 4090, 65530) for k in (1 if lo < 3000 else 3, 333)]
    ex = procs.Explorer(ck, run, "M04", unpriv=True)
    ex.all(cs, "cases")
    ex.close()
    return ck.finish(RULE, ["faults are injected at the system-call level with ptrace (shim/fi.c), one at a time", "files of the C library and the dynamic linker are left alone"])


def replay(a):
    setup()
    return procs.replay(run, a, unpriv=True)
