"""Watching: edits land at every file system call of the watching blogc-make, which must end up with what a build from scratch gives; interrupts at every one of them."""
import os, re, shutil, signal, subprocess, sys, time
import mk, procs, vrun
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from check_M01 import Site, EDITS, stamp, past, clean, T0

RULE = "watching from a finished site and from no outputs at all, one edit of 16 kinds or one of 12 pairs of edits (broken, missing, restored configuration, posts, templates, copied files; deleted outputs) at every (quick: every, pairs: at stated distances) file system call of the start and of the first polling rounds of the watching process; afterwards the outputs must become those of a build from scratch and stay so; an interrupt at every such call; all results of a server that runserver starts; the thread that starts the server standing still at each of its steps while an edit is built; the server starting while the first build stands at its pipe and child calls (quick: up to 60 of them)"
NAP = 20000
# pairs of edits: the first one breaks something
PAIRS = {
    "conf broken": ("conf:[settings]\nno value here\n[posts\n", "title"), "conf empty": ("conf:", "title"), "conf missing": ("rm:blogcfile", "title"), "conf unreadable dir": ("confdir", "perpage"),
    "post missing": ("rm:post", "post1"), "template broken": ("tmpl:{% block entry %}", "main"), "template missing": ("rm:tmpl", "main"), "copied missing": ("rm:static", "newfile"),
    "same twice": ("post1", "post1"), "post and template": ("post1", "main"), "new and gone": ("newpost", "rmpost"), "settings and post": ("perpage", "post2"), "order and title": ("order", "title"),
    "output gone": ("rmout:index",), "outputs gone": ("rmout:all",), "post and output": ("post2", "rmout:posts"),
}


class Edit:
    """The script that makes the edits of a case, one part for each point"""

    def __init__(self, d, root, s):
        self.d, self.root, self.s, self.k, self.parts = d, root, s, 0, []

    def put(self, p, v):
        f = "%s/stage/%d" % (self.d, self.k)
        self.k += 1
        procs.plant(self.d + "/stage", {str(self.k - 1): v})
        q = self.root + "/" + p
        return "mkdir -p '%s'; cp '%s' '%s.new' && touch -d \"$(date '+%%F %%T.%%N')\" '%s.new' && mv '%s.new' '%s'\n" % (os.path.dirname(q), f, q, q, q, q) if self.k % 2 else \
               "mkdir -p '%s'; cp '%s' '%s'; touch -d \"$(date '+%%F %%T.%%N')\" '%s'\n" % (os.path.dirname(q), f, q, q)

    def add(self, e):
        old = self.s.tree()
        t = ""
        td = self.s.conf().s["template_dir"] + "/main.tmpl"
        if e is None:
            pass
        elif e.startswith("conf:"):
            t = self.put("blogcfile", e[5:])
            self.gone = ["blogcfile"]
        elif e == "confdir":
            t = "rm -f '%s/blogcfile'; mkdir '%s/blogcfile'\n" % (self.root, self.root)
            self.gone = ["blogcfile"]
        elif e.startswith("tmpl:"):
            t = self.put(td, e[5:])
            self.gone = [td]
        elif e == "rm:static":
            t = "rm -rf '%s/static'\n" % self.root
            self.gone = [p for p in old if p.startswith("static/")]
        elif e.startswith("rm:"):
            p = {"blogcfile": "blogcfile", "post": self.s.src("p1"), "tmpl": td}[e[3:]]
            t = "rm -f '%s/%s'\n" % (self.root, p)
            self.gone = [p]
        elif e.startswith("rmout:"):
            if e[6:] == "all":
                t = "rm -rf '%s/_build'\n" % self.root
            else:
                t = "rm -f '%s/_build/%s'\n" % (self.root, sorted(clean(self.d, self.s, e[6:]))[0])
        else:
            self.s.edit(e)
            new = self.s.tree()
            gone, self.gone = getattr(self, "gone", []), []
            if "blogcfile" in gone:
                t += "[ -d '%s/blogcfile' ] && rmdir '%s/blogcfile'\n" % (self.root, self.root)
            for p in sorted(set(old) | set(new), key=lambda p: p == "blogcfile"):   # the configuration last
                if p not in new:
                    t += "rm -f '%s/%s'\n" % (self.root, p)
                elif old.get(p) != new[p] or p in gone:
                    t += self.put(p, new[p])
        self.parts.append(t)

    def script(self):
        t = "case $FI_HIT in\n" + "".join("%d)\n%s%s\n;;\n" % (i, p, ": > '%s/done'" % self.d if i == len(self.parts) - 1 else ":") for i, p in enumerate(self.parts)) + "esac\n"
        f = self.d + "/edit.sh"
        open(f, "w").write(t)
        return "/bin/sh '%s'" % f


def prepare(d, flavour, start):
    d = procs.fresh(d)
    s = Site(flavour)
    root = os.path.join(d, "site")
    tmpl = os.path.join(os.path.dirname(d), "tmpl-%d-%s" % (flavour, start))   # kept for this worker
    if not os.path.isdir(tmpl):
        procs.plant(root, s.tree())
        stamp(root, T0)
        if start == "built":
            r = mk.make(root)
            if r.rc:
                raise vrun.Broken("build fails: %r" % r)
            past(root)
        os.rename(root, tmpl)
    subprocess.run(["cp", "-a", tmpl, root], check=True)
    return d, s, root


class Watch:
    """A watching blogc-make under fi"""

    def __init__(self, d, root, fi=None, args=("watch",), **e):
        cmd = [mk.BIN["blogc-make"]] + list(args)
        cmd = procs.with_fi(cmd, [root], names=("blogc-make",), timeout=40, letgo=True, **(fi or {}))
        env = dict(procs.ENV, **mk.env(root, LD_PRELOAD=mk.BIN["nap"], NAP_US=str(NAP), NAP_MARK=root + "/nap", TMPDIR=d, **e))
        self.err = open(d + "/err", "wb")
        self.p = subprocess.Popen(cmd, cwd=root, env=env, stdin=subprocess.DEVNULL, stdout=self.err, stderr=self.err, start_new_session=True, preexec_fn=lambda: signal.signal(signal.SIGINT, signal.SIG_DFL))
        self.d, self.root = d, root

    def main(self):
        try:
            for k in open("/proc/%d/task/%d/children" % (self.p.pid, self.p.pid)).read().split():
                if os.path.basename(os.readlink("/proc/%s/exe" % k)) == "blogc-make":
                    return int(k)
        except OSError:
            pass
        return None

    def interrupt(self, wait=8, group=False):
        """of the process, or of everything that runs in its terminal"""
        k = self.main()
        for q in os.listdir("/proc") if group else ():
            try:
                if q.isdigit() and os.getpgid(int(q)) == self.p.pid and int(q) not in (self.p.pid, k):
                    os.kill(int(q), signal.SIGINT)
            except OSError:
                pass
        if k:
            try:
                os.kill(k, signal.SIGINT)
            except ProcessLookupError:   # the others' end has ended it
                pass
        return self.end(wait)

    def end(self, wait=8):
        try:
            return self.p.wait(wait)
        except subprocess.TimeoutExpired:
            return None
        finally:
            self.err.close()
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
            self.p.wait()

    def output(self):
        return open(self.d + "/err", "rb").read()[-600:]


def outputs(root):
    for _ in range(50):
        try:
            return {p: v for p, v in procs.tree(root + "/_build").items() if v[0] != "d"}
        except OSError:   # temporary files come and go
            pass
    return None


def until(f, wait):
    t = time.time() + wait
    while time.time() < t:
        if f():
            return True
        time.sleep(0.01)
    return False


def sub(want, got):
    return got is not None and all(got.get(p) == want[p] for p in want)


def settle(root):
    """A build after the end repairs whatever is left"""
    return mk.make(root)


def run(case, d):
    return globals()["run_" + case[0]](case[1:], d)


def run_edit(case, d):
    flavour, start, name, at = case
    d, s, root = prepare(d, flavour, start)
    ed = Edit(d, root, s)
    for e in PAIRS.get(name, (name,)):
        ed.add(e)
    while len(ed.parts) < len(at):
        ed.add(None)
    want = clean(d, s, "all")
    bad, what = [], "%s: edit %s at %s" % (start, name, "+".join(str(x) for x in at))
    w = Watch(d, root, {"log": d + "/log", "n": ",".join(str(x) for x in at), "hook": ed.script()})
    if not until(lambda: os.path.exists(d + "/done") or w.p.poll() is not None, 20):
        rc = w.interrupt()
        return {"bad": [what + ": the watching process stands still: %r" % w.output()]}
    ok = until(lambda: sub(want, outputs(root)) or w.p.poll() is not None, 6)
    if w.p.poll() is not None:
        bad.append("%s: the watching process ended with %d: %r" % (what, w.end(), w.output()))
    elif not ok:
        rc = w.interrupt()
        got = outputs(root) or {}
        p = [p for p in want if got.get(p) != want[p]]
        bad.append("%s: never gets built: %s%s: %r" % (what, p[0], " and %d others" % (len(p) - 1) if len(p) > 1 else "", w.output()))
    else:
        time.sleep(3 * NAP / 1e6)
        if not sub(want, outputs(root)):
            bad.append("%s: does not stay built: %s" % (what, procs.diff(want, outputs(root))))
        rc = w.interrupt()
        if rc != 130:
            bad.append("%s: interrupt: %s: %r" % (what, "does not end" if rc is None else "exit status %d" % rc, w.output()))
        r = settle(root)
        if r.rc or not sub(want, outputs(root)):
            bad.append("%s: a build afterwards: %r" % (what, r))
    pts = procs.points(d + "/log")
    here = [(p["call"], os.path.relpath(p["what"].split(" -> ")[0], root)) for p in pts if p["n"] in at]
    if bad:
        bad[0] += "\nat " + ", ".join("%s(%s)" % x for x in here)
    return {"bad": bad, "state": repr((flavour, start, name, here)), "outcome": repr((flavour, start, name, here)), "steps": len(pts), "tally": {name: 1}}


def run_int(case, d):
    """Interrupted at a point, with something to build"""
    flavour, start, name, at = case
    d, s, root = prepare(d, flavour, start)
    ed = Edit(d, root, s)
    before = clean(d, Site(flavour), "all")
    bad, what = [], "%s, %s: interrupt at %d" % (start, name, at)
    if name:
        ed.add(name)
        ed.parts.append("")
        n = "%d,%d" % (ed_point(flavour, start), at)
    else:
        n = str(at)
    want = clean(d, s, "all")
    fi = {"log": d + "/log", "n": n, "mode": "sig:2" if not name else None, "hook": None}
    if name:
        sc = ed.script()
        f = d + "/edit.sh"
        t = open(f).read().replace("esac\n", "esac\n[ $FI_HIT = 1 ] && kill -INT $FI_MAIN\n")
        open(f, "w").write(t)
        fi["hook"] = sc
    w = Watch(d, root, fi)
    rc = w.end(15)
    if rc != 130:
        bad.append("%s: %s: %r" % (what, "does not end" if rc is None else "exit status %d" % rc, w.output()))
    now = outputs(root) or {}
    for p, v in now.items():
        if not p.endswith(".blogc-make.tmp") and v not in (want.get(p), before.get(p)):
            bad.append("%s: %s is %.150r, neither as before nor as after" % (what, p, v))
    r = settle(root)
    got = outputs(root) or {}
    if r.rc or not sub(want, got):
        bad.append("%s: a build afterwards: %r, %s" % (what, r, procs.diff(want, got)))
    pts = procs.points(d + "/log")
    here = [(p["call"], os.path.relpath(p["what"].split(" -> ")[0], root)) for p in pts if p["n"] == at]
    return {"bad": bad, "state": repr((flavour, start, name, here, sorted(now))), "outcome": repr((start, name, here)), "steps": len(pts), "tally": {"interrupts": 1}}


def run_server(case, d):
    """runserver ends with the status of the server, and watches as long as it runs"""
    status, sig, wait, args, edit = case
    d, s, root = prepare(d, 0, "built")
    rec = d + "/blogc-runserver"
    os.symlink(mk.BIN["rec"], rec)
    e = {"REC_LOG": d + "/rec", "REC_AS": "server", "REC_EXIT": str(status), "REC_WAIT": str(wait), "BLOGC_RUNSERVER": rec}
    if sig:
        e["REC_KILL"] = str(sig)
    if status == 127:
        e["BLOGC_RUNSERVER"] = d + "/missing"
    bad, what = [], "runserver%s whose server %s after %d ms" % (args, "is killed by %d" % sig if sig else "ends with %d" % status, wait)
    ed = Edit(d, root, s)
    if edit:
        ed.add(edit)
    want = clean(d, s, "all")
    before = procs.tree(root + "/_build")
    sc = ed.script() if edit else None
    w = Watch(d, root, {"log": d + "/log"}, ("runserver" + args,), **e)
    if edit:
        until(lambda: os.path.exists(d + "/rec"), 5)
        subprocess.run(sc, shell=True, env=dict(os.environ, FI_HIT="0"))
        if not until(lambda: sub(want, outputs(root)), 6):
            bad.append("%s: edit %s is not built" % (what, edit))
        if edit and wait > 5000:
            rc = w.interrupt(8, True)
            if rc != 130:
                bad.append("%s: interrupt: %r: %r" % (what, rc, w.output()))
            return {"bad": bad, "state": case, "outcome": case}
    rc = w.end(12)
    need = 130 if sig == 2 else 128 + sig if sig else 1 if status == 127 else status
    if rc != need:
        bad.append("%s: %s, should be %d: %r" % (what, "does not end" if rc is None else "exit status %d" % rc, need, w.output()))
    if status != 127:
        h = lambda v: v.encode().hex() or "-"
        o = dict(x.split("=", 1) for x in args[1:].split(",") if "=" in x)
        a = "server" + "".join(" %s %s" % (h(k), h(o[n])) for n, k in (("host", "-t"), ("port", "-p"), ("threads", "-m")) if n in o) + " " + h(root + "/_build") + "\n"
        got = open(d + "/rec").read() if os.path.exists(d + "/rec") else "not started"
        if got != a:
            bad.append("%s: the server was called %r, should be %r" % (what, got, a))
    if not edit and procs.tree(root + "/_build") != before:
        bad.append("%s: the outputs changed" % what)
    return {"bad": bad, "state": case, "outcome": case, "steps": len(procs.points(d + "/log")), "tally": {"servers": 1}}


def run_thread(case, d):
    """The thread that starts the server stands still at any of its steps while an edit is built"""
    at, args, edit = case
    d, s, root = prepare(d, 0, "built")
    rec = d + "/blogc-runserver"
    os.symlink(mk.BIN["rec"], rec)
    e = {"REC_LOG": d + "/rec", "REC_AS": "server", "REC_EXIT": "0", "REC_WAIT": "20000", "BLOGC_RUNSERVER": rec, "NAP_STEPS": d + "/steps", "NAP_STOP": str(-1 if at is None else at), "MALLOC_PERTURB_": "90"}
    bad, what = [], "runserver%s whose server thread stands still at step %s while %s is edited" % (args, at, edit)
    ed = Edit(d, root, s)
    ed.add(edit)
    want = clean(d, s, "all")
    sc = ed.script()
    w = Watch(d, root, None, ("-V", "runserver" + args), **e)
    if at is not None:
        until(lambda: os.path.exists(d + "/steps.held") or w.p.poll() is not None, 6)
    else:
        until(lambda: os.path.exists(d + "/rec"), 6)
    here = len(open(d + "/steps").readlines()) if os.path.exists(d + "/steps") else 0
    step = [l.split()[1] for l in open(d + "/steps") if l.startswith("%s " % at)] if os.path.exists(d + "/steps") else []
    subprocess.run(sc, shell=True, env=dict(os.environ, FI_HIT="0"))
    early = until(lambda: sub(want, outputs(root)), 1)   # the others may have to wait for the thread
    open(d + "/steps.go", "w").close()
    if not until(lambda: sub(want, outputs(root)), 6):
        bad.append("%s: it is not built: %r" % (what, w.output()))
    until(lambda: os.path.exists(d + "/rec"), 6)
    h = lambda v: v.encode().hex() or "-"
    o = dict(x.split("=", 1) for x in args[1:].split(",") if "=" in x)
    a = "server" + "".join(" %s %s" % (h(k), h(o[n])) for n, k in (("host", "-t"), ("port", "-p"), ("threads", "-m")) if n in o) + " " + h(root + "/_build") + "\n"
    got = open(d + "/rec").read() if os.path.exists(d + "/rec") else "not started"
    if got != a:
        bad.append("%s: the server was called %r, should be %r: %r" % (what, got, a, w.output()))
    rc = w.interrupt(8, True)
    if rc != 130:
        bad.append("%s: interrupt: %r: %r" % (what, rc, w.output()))
    n = len(open(d + "/steps").readlines()) if os.path.exists(d + "/steps") else 0
    return {"bad": bad, "state": case, "outcome": repr((step, early)), "steps": n, "here": here, "tally": {"threads": 1}}


def run_start(case, d):
    """The server starts while the first build stands still at a call for a child process or a pipe"""
    step, n = case
    d, s, root = prepare(d, 0, "none")
    rec = d + "/blogc-runserver"
    os.symlink(mk.BIN["rec"], rec)
    e = {"REC_LOG": d + "/rec", "REC_AS": "server", "REC_EXIT": "0", "REC_WAIT": "20000", "BLOGC_RUNSERVER": rec, "NAP_STEPS": d + "/steps", "NAP_STOP": str(step)}
    bad, what = [], "runserver whose server starts while the first build stands still at child and pipe call %s" % n
    want = clean(d, s, "all")
    w = Watch(d, root, dict({"log": d + "/log", "classes": "cp", "first": True}, **({} if n is None else {"n": n, "mode": "hold:" + d + "/hold"})), ("runserver",), **e)
    if n is not None:
        until(lambda: os.path.exists(d + "/hold.held"), 6)
        if not until(lambda: os.path.exists(d + "/steps.held"), 1):   # it is before the server's thread
            open(d + "/hold", "w").close()
    until(lambda: os.path.exists(d + "/steps.held"), 6)
    if n is not None:
        open(d + "/steps.go", "w").close()
        if not until(lambda: os.path.exists(d + "/rec"), 6):
            bad.append("%s: the server does not start: %r" % (what, w.output()))
        open(d + "/hold", "w").close()
    if not until(lambda: sub(want, outputs(root)), 6):
        bad.append("%s: the site is not built: %r" % (what, w.output()))
    open(d + "/steps.go", "w").close()
    rc = w.interrupt(8, True)
    if rc != 130:
        bad.append("%s: interrupt: %r: %r" % (what, rc, w.output()))
    pts = procs.points(d + "/log")
    here = [(p["call"], p["what"]) for p in pts if p["n"] == n]
    return {"bad": bad, "state": case, "outcome": repr(here), "steps": len(pts), "tally": {"starts": 1}, "points": pts}


POINTS = {}


def rounds(flavour, start):
    """The points of a run without edits: the start, and the end of every round"""
    if (flavour, start) not in POINTS:
        d, s, root = prepare(os.path.join(procs.scratch("M06p"), "p"), flavour, start)
        w = Watch(d, root, {"log": d + "/log"})
        f = lambda: [p["n"] for p in procs.points(d + "/log") if p["what"] == root + "/nap"]
        until(lambda: os.path.exists(d + "/log") and len(f()) > 5, 20)
        w.interrupt()
        r = [0] + f()
        if len(r) < 6:
            raise vrun.Broken("watching stands still: %r" % w.output())
        POINTS[flavour, start] = (r, procs.points(d + "/log"), root + "/blogcfile")
    return POINTS[flavour, start]


def ed_point(flavour, start):
    return POINTS[flavour, start][0][1]   # the end of the first round


def setup():
    mk.setup()
    for fl in (0, 1):
        for st in ("built", "none"):
            rounds(fl, st)


def main(tier):
    ck = vrun.Check("M06", tier)
    setup()
    th = tier == "thorough"
    P = {k: r for k, (r, p, q) in POINTS.items()}
    cs = []
    for fl, st in P if th else ((0, "built"), (1, "none")):
        r = P[fl, st]
        if th or st == "built":
            cs += [("edit", fl, st, e, (i,)) for e in EDITS + ["output gone", "outputs gone"] for i in range(r[2])]
        else:
            cs += [("edit", fl, st, e, (i,)) for e in ("post1", "main", "title", "copied", "newfile", "newpost", "retag", "output gone") for i in range(0, r[2], 2)]
        cs += [("int", fl, st, None, i) for i in range(r[2] + 1)]
    for e in ("post1", "title", "copied", "main", "newpost") if th else ("title",):
        r = P[0, "built"]
        cs += [("int", 0, "built", e, i) for i in range(r[1] + 1, r[3])]
    for e in [e for e in PAIRS if len(PAIRS[e]) == 2]:
        r = P[0, "built"]
        lo = 0 if not e.startswith("conf") else 1 + max(p["n"] for p in POINTS[0, "built"][1] if p["what"] == POINTS[0, "built"][2] and p["n"] < r[1] and p["call"] in ("read", "close"))   # it has to start
        if th:
            cs += [("edit", 0, "built", e, (i, i + k)) for i in range(lo, r[2]) for k in range(1, r[2] - r[1] + 2, 3)]
        else:
            cs += [("edit", 0, "built", e, (i, i + k)) for i in range(lo, r[2], 3) for k in (1, 2, r[2] - r[1])]
    cs += [("server", st, sig, w, a, e) for st, sig in ((0, 0), (1, 0), (3, 0), (77, 0), (127, 0), (130, 0), (0, 15), (0, 2)) for w in (0, 30, 400) for a in ("", ":port=81", ":host=0.0.0.0,port=9999,threads=3") for e in (None,)]
    cs += [("server", 0, 0, 20000, a, e) for a in ("", ":threads=7,host=::1") for e in EDITS]
    for a in ("", ":host=0.0.0.0,port=9999,threads=3"):
        r = run(("thread", None, a, "title"), os.path.join(procs.scratch("M06t"), "t"))
        cs += [("thread", i, a, e) for e in (("title", "post1", "newpost") if th else ("title",)) for i in range(r["steps"])]
        if not a and r["here"]:   # the last step before there is a server
            n = len(run(("start", r["here"] - 1, None), os.path.join(procs.scratch("M06t"), "t"))["points"])
            cs += [("start", r["here"] - 1, i) for i in range(n if th else min(n, 60))]
    ex = procs.Explorer(ck, run, "M06", workers=3 * vrun.NPROC, unpriv=True)   # they mostly wait
    ex.all(cs, "schedules")
    ex.close()
    return ck.finish(RULE, [])


def replay(a):
    setup()
    return procs.replay(run, a, unpriv=True)
