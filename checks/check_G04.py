"""Deployments: every failing call and every crash point, failing and missing programs, all histories over two repositories within one second, two deployments at once."""
import itertools, os, shutil
import procs, recv, vrun
import inproc

RULE = "12 deployment situations (first, later, rebuild, custom link, links in the site, dangling link, other link target, blogc-make...) with every file and process call of the hook and every file call of tar failing, cut short, and being the crash point, each followed by a clean deployment; every stand-in failing or missing in 5 ways; all histories of up to 3 (thorough 4) operations over two repositories sharing commits and the clock; a second deployment of the same or the other repository at every call of the first"
LINKS = {"content/out": ("l", "../../outside"), "content/abs": ("l", "@/outside"), "content/dangling": ("l", "nowhere"), "content/self": ("l", "."), "content/d/up": ("l", ".."), "notes": ("l", "@/outside"), "blog": ("l", "@/home/builds")}
PROGS = ("git", "tar", "gmake", "make", "blogc-make")


def commits():
    if not recv.COMMITS:
        for n in "ABC":
            recv.commit(n)
        recv.commit("L", extra=LINKS)
        recv.commit("M", kind="blogcfile")
        recv.commit("G", kind="GNUMakefile")
        recv.commit("F", "fail")
        recv.commit("N", "failnone")
        recv.commit("E", "nothing")
        recv.commit("X", kind="nothing-to-build")
        recv.commit("Mf", "fail", kind="blogcfile")
    return recv.COMMITS


def relocate(b):
    """Commits with links into the scratch directory"""
    for n in "L":
        c = recv.COMMITS[n]
        ex = {p: (v[0], v[1].replace("@", b.d)) for p, v in LINKS.items()}
        recv.commit(n, extra=ex)
        open(os.path.join(b.stub, "tars", recv.COMMITS[n]["id"]), "wb").write(recv.COMMITS[n]["tar"])


def make(d, name):
    """A situation: (site, commit to deploy or None for a rebuild, live commit)"""
    kw = {}
    if name == "custom":
        kw["ini"] = "[repo:site.git]\nsymlink = @/www/live\n"
    elif name == "relative":
        kw["ini"] = "[repo:other.git]\nsymlink = @/no\n[repo:site.git]\nsymlink = pub\n"
    elif name == "builds":
        kw["builds"] = "my builds/it's"
    elif name == "shell":
        kw["builds"] = 'b$x"`y'
    b = recv.Site(d, **kw)
    procs.plant(b.d, {"outside/a": "precious", "outside/s/b": "precious", "home/keep": "k", "www": None})
    procs.plant(b.builds, {"%040x-1600000000/index.html" % 7: "another site"})
    relocate(b)
    if name == "custom":
        b.link["site.git"] = os.path.join(b.d, "www", "live")
    elif name == "relative":
        b.link["site.git"] = os.path.join(b.home, "repos/site.git/pub")
    live = {"first": None, "links2": "L", "fromlinks": "L"}.get(name, "A")
    new = {"links": "L", "links2": "L", "fromlinks": "B", "blogcmake": "M", "rebuild": None, "same": "A", "gnu": "G"}.get(name, "B")
    if live:
        r = b.deploy(live)
        if r.rc or b.is_site(b.live()) != live:
            raise vrun.Broken("%s: cannot set up: %r" % (name, r))
    if name == "dangling":
        shutil.rmtree(b.live_dir())
        os.unlink(b.link["site.git"])
        os.symlink(os.path.join(b.d, "gone"), b.link["site.git"])
        live = None
    elif name == "foreign":            # the administrator's own directory, not a build
        shutil.rmtree(b.live_dir())
        os.unlink(b.link["site.git"])
        os.symlink(os.path.join(b.d, "outside"), b.link["site.git"])
        live = "outside"
    b.calls()
    return b, new, live


SIT = ["first", "second", "same", "rebuild", "custom", "relative", "links", "links2", "fromlinks", "dangling", "foreign", "blogcmake", "gnu", "builds", "shell"]


def world(b, stray=False):
    """Everything but the builds made here, the live link (stray: and what a killed replacement of it left) and the stand-ins' log"""
    t = procs.tree(b.d)
    bl = os.path.relpath(b.builds, b.d)
    links = {os.path.relpath(l, b.d) for l in b.link.values()}
    other = bl + "/%040x-1600000000" % 7
    return {p: v for p, v in t.items() if not (stray and v[0] == "l" and any(p.startswith(l + ".") for l in links)) and not (p.startswith("stub") or p in links or p == bl or p.startswith(bl + "/") and not p.startswith(other) or p.startswith("hook.") or p.startswith("w_"))}


def go(b, new, repo="site.git", **kw):
    return b.rebuild(repo, **kw) if new is None else b.deploy(new, repo, **kw)


def named(b, repo="site.git"):
    t = b.live(repo)
    if t is None:
        return None
    if t == {"a": ("f", b"precious"), "s": ("d",), "s/b": ("f", b"precious")}:
        return "outside"
    return b.is_site(t) or "incomplete: " + procs.diff(recv.COMMITS["B"]["site"], t)[:200]


def extra_builds(b):
    """Builds in the build directory that are not live"""
    lives = {b.live_dir(r) for r in b.link}
    return [n for n in b.built() if os.path.join(os.path.realpath(b.builds), n) not in lives and not n.startswith("%040x-16" % 7)]


def judge(b, r, new, live, w0, what, bad, clean=True, kill=False, builds0=(), stray=False):
    """After one deployment; returns what is live now."""
    now = named(b)
    want = live if new is None else new
    if kill:
        if now not in (live, want):
            bad.append("%s: the live site is %r, neither the previous %r nor the new %r" % (what, now, live, want))
    elif r.rc == 0:
        if now != want:
            bad.append("%s: succeeded, but the live site is %r, not %r: %r" % (what, now, want, r))
    else:
        if r.rc >= 120 or r.rc < 0:
            bad.append("%s: crashed: %r" % (what, r))
        if not r.err:
            bad.append("%s: failed without an error message: %r" % (what, r))
        if now != live:
            bad.append("%s: failed, but the live site is %r, not the previous %r: %r" % (what, now, live, r))
    w = world(b, True)
    if w != w0 or not stray and world(b) != w0:
        bad.append("%s: changed or removed other files: %s" % (what, procs.diff(w0, w)))
    left = recv.tmp_left()
    if clean and left:
        bad.append("%s: temporary files left: %s; %r" % (what, left[:3], r))
    if clean and not kill:
        e = sorted(set(extra_builds(b)) - set(builds0))
        if e:
            bad.append("%s: builds that are not live were left: %s; %r" % (what, e[:3], r))
    recv.tmp_clean()
    return now


REMOVAL = ("open", "openat", "getdents64", "unlink", "unlinkat", "rmdir", "lstat", "stat", "newfstatat", "fstat", "close", "statx", "access", "readlink", "readlinkat")


def one(case, d):
    recv.tmp_clean()
    kind, sit = case[0], case[1]
    bad, out = [], []
    if kind == "fault":
        names, n, mode, desc, call = case[2:]
        b, new, live = make(d, sit)
        w0, b0 = world(b), extra_builds(b)
        r = go(b, new, fi=dict(names=names.split(), classes="fc", n=n, mode=mode, dirs=[b.d, "/tmp"]))
        kill = mode in ("kill", "torn")
        # a failing removal cannot remove; everything else must be cleaned up
        clean = not kill and not (call in REMOVAL and names != "tar")
        if r.rc == 0 and new is None and not kill and not any(x[0] == "git" and "archive" in x[2] for x in b.calls()):
            bad.append("%s: succeeded, but nothing was rebuilt: %r" % (desc, r))
        if r.rc == 0 and b"skipping" in r.err and ("/blogcfile)" in desc or "akefile)" in desc):   # taken for a site without a build file
            new = live
        now = judge(b, r, new, live, w0, desc, bad, clean, kill, stray=kill)
        out.append((r.rc, now))
        if now is None or not bad:
            b0 = extra_builds(b)
            r = b.deploy("C")
            now = judge(b, r, "C", now, w0, "the deployment after: " + desc, bad, builds0=b0, stray=kill)
            if r.rc:
                bad.append("the deployment after: %s: failed: %r" % (desc, r))
            out.append((r.rc, now))
    elif kind == "prog":
        what = case[2]
        b, new, live = make(d, sit)
        w0 = world(b)
        may = False
        env, unset = {}, []
        if what.startswith("no "):
            for p in what[3:].split("+"):
                os.unlink(os.path.join(b.bin, p))
            w0 = world(b)
        elif what.startswith("fail "):
            b.fail(*what[5:].split("+"))
        elif what.startswith("env "):
            unset = what[4:].split("+")
        elif what.startswith("commit "):
            new = what[7:]
        elif what == "readonly":
            os.makedirs(b.builds, exist_ok=True)
            os.chmod(b.builds, 0o555)
        elif what == "noparent":
            shutil.rmtree(os.path.join(b.d, "www"))
            w0, live = world(b), None
        elif what == "linkdir":                      # a directory where the link should be
            os.path.islink(b.link["site.git"]) and os.unlink(b.link["site.git"])
            os.makedirs(b.link["site.git"])
            open(b.link["site.git"] + "/mine", "w").write("precious")
            w0, live = world(b), named(b)
        if what == "env HOME+BUILDS":
            unset = ["HOME", "BLOGC_GIT_RECEIVER_BUILDS_DIR"]
        b0 = extra_builds(b)
        r = go(b, new, unset=unset)
        if new == "X" and r.rc == 0:                  # nothing to build is not an error
            new = live
        now = judge(b, r, new, live, w0, what, bad, builds0=b0)
        out.append((r.rc, now))
        good = what in ("fail gmake", "no gmake", "no make", "no blogc-make", "fail make", "fail blogc-make")
        if what in ("no gmake", "no make") and sit != "blogcmake" and r.rc:
            bad.append("%s: failed although there is another make: %r" % (what, r))
        if what == "linkdir" and not os.path.exists(b.link["site.git"] + "/mine"):
            bad.append("the administrator's directory was removed")
        if what == "readonly":
            os.chmod(b.builds, 0o755)
    elif kind == "hist":
        b = recv.Site(d, repos=("r1.git", "r2.git"))
        procs.plant(b.d, {"outside/a": "precious"})
        relocate(b)
        w0 = world(b)
        want = {"r1.git": None, "r2.git": None}
        for k, op in enumerate(case[2]):
            what = "step %d (%s)" % (k + 1, op)
            if op == "tick":
                b.env["FAKE_EPOCH"] = str(int(b.env["FAKE_EPOCH"]) + 1)
                continue
            repo = "r%s.git" % op[0]
            c = op[2:]
            b.fail()
            if c == "rebuild":
                r = b.rebuild(repo)
                exp = want[repo]
                if (r.rc == 0) != (exp is not None):
                    bad.append("%s: %r" % (what, r))
            elif c == "archivefails":
                b.fail("archive0")
                r = b.deploy("B", repo)
                exp = want[repo]
                if r.rc == 0:
                    bad.append("%s: succeeded" % what)
            else:
                r = b.deploy(c, repo)
                exp = c if c in ("A", "B", "L") else want[repo]
                if (r.rc == 0) != (c in ("A", "B", "L")):
                    bad.append("%s: %r" % (what, r))
            want[repo] = exp
            for q in want:
                now = named(b, q)
                if now != want[q]:
                    bad.append("%s: the live site of %s is %r, not %r" % (what, q, now, want[q]))
            dirs = [x for x in (b.live_dir(q) for q in want) if x]
            if len(set(dirs)) != len(dirs):
                bad.append("%s: two sites share a build" % what)
            e = extra_builds(b)
            if e:
                bad.append("%s: builds left: %s" % (what, e))
            if recv.tmp_left():
                bad.append("%s: temporary files left: %s" % (what, recv.tmp_left()))
                recv.tmp_clean()
            w = world(b)
            if w != w0:
                bad.append("%s: other files changed: %s" % (what, procs.diff(w0, w)))
            out.append((op, r.rc, tuple(want.values())))
            if bad:
                break
    else:                                      # two: another deployment at the n-th call
        second, n, desc = case[2:]
        b = recv.Site(d, repos=("site.git", "r2.git"))
        repo2, c2, live2 = {"same": ("site.git", "B", None), "other": ("r2.git", "A", None), "others": ("r2.git", "A", "B"), "clash": ("r2.git", "B", "B"), "rebuild": ("site.git", None, None)}[second]
        procs.plant(b.d, {"outside/a": "precious"})
        relocate(b)
        if sit != "first":
            b.deploy("A")
        if live2:
            b.deploy(live2, "r2.git")
        w0 = world(b)
        inp = os.path.join(b.d, "hook.in")
        open(inp, "w").write("" if c2 is None else "%s %s refs/heads/master\n" % (recv.ZERO, recv.COMMITS[c2]["id"]))
        sc = os.path.join(b.d, "hook.sh")
        open(sc, "w").write("PATH=%s\ncd %s/repos/%s\n%s ./hooks/pre-receive < %s > %s/hook.out 2>&1\necho $? > %s/hook.rc\n" % (b.bin, b.home, repo2, "unset GIT_DIR;" if c2 is None else "GIT_DIR=.", inp, b.d, b.d))
        new = "B" if second == "rebuild" or c2 == "A" and repo2 == "site.git" else "A" if second == "other" else "B"
        if second == "same":
            new = "C"
        r = b.deploy(new, fi=dict(names=["blogc-git-receiver"], classes="fc", n=n, dirs=[b.d, "/tmp"], hook="/bin/sh " + sc))
        rc2 = open(b.d + "/hook.rc").read().strip() if os.path.exists(b.d + "/hook.rc") else "not run"
        what = "%s, other deployment (%s) at %s" % (sit, second, desc)
        first_rebuild = second == "rebuild" and sit == "first"
        if r.rc or rc2 != "0" and not first_rebuild:
            bad.append("%s: %r; the other: %s %s" % (what, r, rc2, open(b.d + "/hook.out").read()[:200]))
        now = named(b)
        allowed = {new} if repo2 != "site.git" else {new, c2 or "A"} | ({new} if c2 is None else set())
        if now not in allowed:
            bad.append("%s: the live site is %r" % (what, now))
        if repo2 != "site.git":
            if named(b, repo2) != c2:
                bad.append("%s: the live site of the other repository is %r" % (what, named(b, repo2)))
            if b.live_dir() and b.live_dir() == b.live_dir(repo2):
                bad.append("%s: two sites share a build" % what)
        if world(b) != w0:
            bad.append("%s: other files changed: %s" % (what, procs.diff(w0, world(b))))
        if recv.tmp_left():
            bad.append("%s: temporary files left: %s" % (what, recv.tmp_left()))
            recv.tmp_clean()
        # and the next deployments of both leave both sites alone
        for q, c in (("site.git", "C"), ("r2.git", "A")):
            keep = {x: named(b, x) for x in b.link if x != q}
            r = b.deploy(c, q)
            if r.rc or named(b, q) != c:
                bad.append("%s: the next deployment of %s: %r" % (what, q, r))
            for x, v in keep.items():
                if named(b, x) != v:
                    bad.append("%s: the next deployment of %s changes the site of %s to %r" % (what, q, x, named(b, x)))
        out.append((r.rc, rc2, now))
    return {"bad": ["%s: %s" % (sit, m.replace(b.d, "~")) for m in bad], "state": (kind, sit) + tuple(case[2:5]), "outcome": (kind, sit, tuple(out)), "tally": {kind: 1}, "steps": 2}


def collect(case, d):
    """The calls of a deployment without faults"""
    sit, names = case
    recv.tmp_clean()
    b, new, live = make(d, sit)
    log = os.path.join(d, "log")
    if os.path.exists(log):
        os.unlink(log)
    go(b, new, fi=dict(names=[names], classes="fc", log=log, dirs=[b.d, "/tmp"]))
    recv.tmp_clean()
    pts = procs.points(log)
    for p in pts:
        p["what"] = p["what"].replace(b.d, "~")
    return {"bad": [], "pts": pts}


def cases(th):
    base = procs.scratch("G04p")
    os.chmod(base, 0o711)
    todo = [(s, "blogc-git-receiver") for s in SIT] + [(s, "tar") for s in ("first", "second", "links")]
    res = {c: (r, e) for c, r, e in procs._workers(collect, todo, base, vrun.NPROC, True, lambda: False)}
    shutil.rmtree(base, ignore_errors=True)
    for sit, names in todo:
        r, e = res[(sit, names)]
        if r and r["bad"]:
            raise vrun.Broken(r["bad"][0])
        if e or not r["pts"]:
            raise RuntimeError("no calls seen in %s %s" % (sit, e))
        for p in r["pts"]:
            w = "%s(%s) #%d" % (p["call"], p["what"], p["n"])
            # settings that cannot be read or matched are a warning by design, the default link is then used
            if "blogc-git-receiver.ini" in p["what"] or sit in ("custom", "relative") and p["call"] in ("readlink", "readlinkat", "lstat", "newfstatat") and p["what"] in ("~", "~/home", "~/home/repos", "~/home/repos/site.git", "~/home/repos/other.git"):
                continue
            for n, mode, desc in procs.faults([p], ("err", "kill", "short")):
                if names == "tar" and (mode == "kill" or sit == "links" and p["call"] == "newfstatat"):   # tar itself ignores links that it cannot examine
                    continue
                yield ("fault", sit, names, n, mode, desc, p["call"])
            if names != "tar" and sit in ("first", "second"):
                for second in ("same", "other", "others", "clash", "rebuild"):
                    yield ("two", sit, second, p["n"], w)
    for sit in SIT:
        for what in ["no git", "no tar", "no gmake", "no make", "no gmake+make", "no blogc-make", "fail git", "fail git archive", "fail archive0", "fail archivehalf", "fail archiveodd", "fail tar", "fail gmake", "fail make", "fail gmake+make", "fail blogc-make",
                     "env HOME", "env HOME+BUILDS", "env PATH+HOME", "commit F", "commit N", "commit E", "commit X", "commit Mf", "commit M", "commit L", "readonly", "linkdir"] + (["noparent"] if sit == "custom" else []):
            if sit == "foreign" and what == "linkdir":
                continue
            yield ("prog", sit, what)
    ops = ["1 A", "1 B", "1 F", "1 N", "1 E", "1 rebuild", "1 archivefails", "2 A", "2 B", "2 F", "2 rebuild", "2 L", "tick"]
    for n in range(1, 5 if th else 4):
        for w in itertools.product(ops, repeat=n):
            if w[-1] == "tick" or n > 2 and w[0] in ("tick",):
                continue
            yield ("hist", "two repositories", w)
    if not th:
        core = ["1 A", "2 A", "1 F", "1 rebuild", "2 rebuild", "1 B"]
        for n in (4, 5):
            for w in itertools.product(core[:6 if n == 4 else 4], repeat=n):
                yield ("hist", "two repositories", w)


def main(tier):
    ck = vrun.Check("G04", tier)
    recv.setup()
    commits()
    ex = procs.Explorer(ck, one, "G04", unpriv=True)
    ex.all(list(cases(tier == "thorough")), "deployments")
    ex.close()
    return ck.finish(RULE, inproc.ASSUME + ["git and make are replaced by stand-ins, tar is the real one; the temporary directory is below /tmp"])


def replay(a):
    recv.setup()
    commits()
    return procs.replay(one, a, unpriv=True)
