"""The login shell's preparation of repositories: every prior state, every failing call, every crash point, two shells at once."""
import itertools, os
import procs, recv, vrun
import inproc

RULE = "every prior state of the repository (absent, partly made, 5 forms of hooks/, 8x8 forms of the two hooks) with each program failing or missing and the command repeated; for each of them every file and process call failing and every crash point, followed by another push (thorough: pairs of such faults in two pushes); and a second complete login shell run at every call of the first"
BARE = {"HEAD": "ref: refs/heads/master\n", "config": "[core]\n\tbare = true\n", "objects": None, "refs": None, "keep": "k"}
CMD = "git-receive-pack 'a/b.git'"
R = "repos/a/b.git"


def hook(kind, self_):
    return {"none": {}, "right": {"": ("l", self_)}, "dangling": {"": ("l", "/nonexistent/x")}, "file": {"": "#!/bin/sh\nexit 0\n"}, "tofile": {"": ("l", "../keep")}, "todir": {"": ("l", "../objects")},
            "dir": {"/f": "x"}, "emptydir": {"": None}}[kind]


HOOKS = ("none", "right", "dangling", "file", "tofile", "todir", "dir", "emptydir")
STATES = [("absent",), ("parent",), ("emptydir",), ("partial",), ("repofile",), ("repodangling",), ("repolink",), ("parentfile",), ("nohooks",), ("hooksfile",), ("hooksdangling",), ("hookslink",)] + [("hooks", a, b) for a in HOOKS for b in HOOKS]


def prior(st, self_):
    k = st[0]
    t = {"other/f": "1", "repos/c.git/hooks/pre-receive": "mine"}
    if k == "absent":
        t = {"other/f": "1"}
    elif k == "parent":
        t["repos/a"] = None
    elif k == "parentfile":
        t["repos/a"] = "file"
    elif k == "emptydir":
        t[R] = None
    elif k == "partial":
        t[R + "/objects"] = None
    elif k == "repofile":
        t[R] = "file"
    elif k == "repodangling":
        t[R] = ("l", "/nonexistent/r")
    elif k == "repolink":
        t[R] = ("l", "../real.git")
        t.update({"repos/real.git/" + p: v for p, v in BARE.items()})
        t["repos/real.git/hooks"] = None
    else:
        t.update({R + "/" + p: v for p, v in BARE.items()})
        if k == "hooksfile":
            t[R + "/hooks"] = "file"
        elif k == "hooksdangling":
            t[R + "/hooks"] = ("l", "/nonexistent/h")
        elif k == "hookslink":
            t[R + "/hooks"] = ("l", "../../shared")
            t["repos/shared/x"] = "x"
        elif k == "hooks":
            t[R + "/hooks/other.sample"] = "s"
            for n, kind in zip(("pre-receive", "post-receive"), st[1:]):
                for p, v in hook(kind, self_).items():
                    t[R + "/hooks/" + n + p] = v
    return t


MUST = {"absent", "parent", "emptydir", "partial", "repolink", "nohooks", "hookslink"}    # states that nothing prevents from being prepared


def preparable(st):
    return st[0] in MUST or st[0] == "hooks" and not {"dir", "emptydir"} & set(st[1:])


def ready(b):
    """What is missing for a push to find its hooks"""
    r = os.path.join(b.home, R)
    for n in ("pre-receive", "post-receive"):
        p = os.path.join(r, "hooks", n)
        if not os.path.islink(p):
            return "%s is not a link" % n
        if os.readlink(p) != b.self:
            return "%s leads to %s" % (n, os.readlink(p))
    if not os.path.isfile(os.path.join(r, "HEAD")):
        return "the repository is not there"
    return None


def served(calls):
    return [c for c in calls if c[0] == "git-shell"]


def outside(t, st=("",)):
    """The files the preparation has no business with: all but the hooks and a repository that was not there"""
    mine = {R + "/hooks", R + "/hooks/pre-receive", R + "/hooks/post-receive", "repos", "repos/a", "repos/shared/pre-receive", "repos/shared/post-receive", "repos/real.git/hooks/pre-receive", "repos/real.git/hooks/post-receive"}
    return {p: v for p, v in t.items() if p not in mine and not (st[0] in ("absent", "parent", "emptydir", "partial") and (p + "/").startswith(R + "/"))
            and not p.startswith((R + "/hooks/pre-receive/", R + "/hooks/post-receive/"))}


def judge(b, st, r, calls, before, what, bad):
    """One run of the shell: it served the push and everything is ready, or it refused with an error."""
    if served(calls):
        m = ready(b)
        if m:
            bad.append("%s: the push was accepted although %s" % (what, m))
    elif r.rc == 0 or r.rc >= 120 or not r.err:
        bad.append("%s: nothing was run, but there is no error: %r" % (what, r))
    t = procs.tree(b.home)
    x, y = outside(before, st), outside(t, st)
    lost = {p: v for p, v in x.items() if y.get(p) != v}
    new = {p for p in y if p not in x and not os.path.basename(p).startswith(".") and not p.endswith(".sample")}   # git init may be run again
    if lost or new:
        bad.append("%s: other files changed: %r %r" % (what, sorted(lost)[:4], sorted(new)[:4]))
    return t


def one(case, d):
    kind, st = case[0], case[1]
    b = recv.Box(d)
    t0 = prior(st, b.self)
    procs.plant(b.home, t0)
    before = procs.tree(b.home)
    bad = []
    out = []
    if kind == "state":
        variant = case[2]
        progs = None
        if variant == "nogit":
            os.unlink(os.path.join(b.bin, "git"))
        elif variant == "noshell":
            os.unlink(os.path.join(b.bin, "git-shell"))
        elif variant == "initfails":
            b.fail("git init")
        elif variant == "notemplates":
            open(os.path.join(b.stub, "nohooks"), "w").close()
        elif variant == "stalehome":
            b.env["BLOGC_GIT_RECEIVER_BASE_DIR"] = b.home
            b.env["HOME"] = "/nonexistent"
        snaps = []
        for k in range(3):
            r = b.run([b.self, "-c", CMD])
            calls = b.calls()
            snap = judge(b, st, r, calls, before, "run %d" % (k + 1), bad)
            ok = bool(served(calls))
            out.append((r.rc, ok))
            if ok and snaps and snaps[-1][0] and snaps[-1][1] != snap:
                bad.append("run %d changes what run %d left: %s" % (k + 1, k, procs.diff(snaps[-1][1], snap)))
            snaps.append((ok, snap))
        if preparable(st) and variant in ("", "notemplates", "stalehome") and not all(s[0] for s in snaps):
            bad.append("refused: %r" % r)
    elif kind == "fault":
        n, mode, desc, variant, m, mode2 = case[2:]
        if variant == "notemplates":
            open(os.path.join(b.stub, "nohooks"), "w").close()
        r = b.run([b.self, "-c", CMD], fi=dict(dirs=[b.home], names=["blogc-git-receiver"], classes="fc", n=n, mode=mode))
        calls = b.calls()
        if mode == "kill":
            if served(calls) and ready(b):
                bad.append("%s: a push was served although %s" % (desc, ready(b)))
        else:
            judge(b, st, r, calls, before, desc, bad)
        out.append((r.rc, bool(served(calls))))
        if m >= 0:
            r = b.run([b.self, "-c", CMD], fi=dict(dirs=[b.home], names=["blogc-git-receiver"], classes="fc", n=m, mode=mode2))
            calls = b.calls()
            desc += ", then %s at #%d" % (mode2, m)
            if mode2 != "kill":
                judge(b, st, r, calls, before, desc, bad)
            elif served(calls) and ready(b):
                bad.append("%s: a push was served although %s" % (desc, ready(b)))
        r = b.run([b.self, "-c", CMD])
        calls = b.calls()
        judge(b, st, r, calls, before, "the push after: " + desc, bad)
        out.append((r.rc, bool(served(calls))))
        if preparable(st) and not served(calls):
            bad.append("the push after: %s: refused: %r" % (desc, r))
    else:                                   # another shell runs completely at the n-th call
        n, desc = case[2:]
        look = "".join("readlink %s/%s/hooks/%s >> %s/seen 2>/dev/null || echo none >> %s/seen\n" % (b.home, R, h, b.d, b.d) for h in ("pre-receive", "post-receive"))
        script = os.path.join(b.d, "hook.sh")
        open(script, "w").write("PATH=/usr/bin:/bin\n" + look + "PATH=%s\n%s -c \"%s\" > %s/out2 2>&1\necho $? > %s/rc2\nPATH=/usr/bin:/bin\n" % (b.bin, b.self, CMD, b.d, b.d) + look)
        r = b.run([b.self, "-c", CMD], fi=dict(dirs=[b.home], names=["blogc-git-receiver"], classes="fc", n=n, mode="err:0" if False else None, hook="/bin/sh " + script))
        calls = b.calls()
        if not os.path.exists(b.d + "/rc2"):
            bad.append("harness: the second shell did not run")
        rc2 = open(b.d + "/rc2").read().strip()
        judge(b, st, r, calls, before, desc, bad)
        if len(served(calls)) != 2 or r.rc or rc2 != "0":
            bad.append("%s: %d of 2 pushes were served: %r, the other one: %s %s" % (desc, len(served(calls)), r, rc2, open(b.d + "/out2").read()[:200]))
        seen = open(b.d + "/seen").read().split("\n")[:4]
        if st == ("hooks", "right", "right") and any(s != b.self for s in seen):
            bad.append("%s: a push being served meanwhile finds its hooks as %r" % (desc, seen))
        if any(s != b.self for s in seen[2:]):
            bad.append("%s: the second push found its hooks as %r" % (desc, seen[2:]))
        out.append((r.rc, rc2))
    return {"bad": ["%r: %s" % (st, m) for m in bad], "state": (st, case[2] if kind == "state" else case[2:4], tuple(out)), "outcome": (kind, tuple(out)), "tally": {kind: 1}, "steps": 3}


FST = [("hooks", "none", "none"), ("hooks", "right", "right"), ("hooks", "dangling", "file"), ("hooks", "right", "none"), ("hooks", "file", "dangling")]


def cases(th):
    variants = ("", "nogit", "noshell", "initfails", "notemplates", "stalehome")
    for st in STATES:
        for v in variants if th or st[0] != "hooks" or st[1] == st[2] else ("",):
            yield ("state", st, v)
    base = procs.scratch("G02p")
    for st in STATES:
        for variant in ("", "notemplates") if st[0] in ("absent", "partial") else ("",):
            b = recv.Box(base)
            procs.plant(b.home, prior(st, b.self))
            if variant:
                open(os.path.join(b.stub, "nohooks"), "w").close()
            log = os.path.join(base, "log")
            r = b.run([b.self, "-c", CMD], fi=dict(dirs=[b.home], names=["blogc-git-receiver"], classes="fc", log=log))
            pts = procs.points(log)
            if preparable(st) and (r.rc or not pts):
                raise vrun.Broken("%r fails without faults: %r" % (st, r))
            fl = procs.faults(pts, ("err", "kill"))
            for n, mode, desc in fl:
                yield ("fault", st, n, mode, desc.replace(b.home, "~"), variant, -1, "")
                if th and (st[0] != "hooks" or st in FST):
                    for m, mode2, desc2 in fl:
                        yield ("fault", st, n, mode, desc.replace(b.home, "~"), variant, m, mode2)
            if preparable(st) and not variant:
                for p in pts:
                    yield ("two", st, p["n"], "with another shell at %s(%s) #%d" % (p["call"], p["what"].replace(b.home, "~"), p["n"]))


def main(tier):
    ck = vrun.Check("G02", tier)
    recv.setup()
    ex = procs.Explorer(ck, one, "G02", unpriv=True)
    ex.all(list(cases(tier == "thorough")), "repositories")
    ex.close()
    return ck.finish(RULE, inproc.ASSUME + ["git and git-shell are replaced by stand-ins"])


def replay(a):
    recv.setup()
    return procs.replay(one, a, unpriv=True)
