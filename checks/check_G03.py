"""What deploys: the reference parser in-process (harness/G03.cpp), all pushes of up to N updates, all histories of pushes and rebuilds, and real pushes with git."""
import itertools, os, shutil
import procs, recv, vrun
import inproc

RULE = "the reader of updates on all lists of up to 3 (thorough 4) lines over 18 references, 5 (6) over 8, with 4 hash lengths, cut at every byte of the last line, every branch name length; the hook on all pushes of up to 3 (thorough 4) updates of different references over 9 references created, updated or removed, with and without a live site, followed by a rebuild; all histories of up to 3 (4) pushes and rebuilds from 4 directories over 10 operations; real pushes with git of all sets of updates, with SHA-1 and SHA-256 repositories"
REFS = ["refs/heads/master", "refs/heads/main", "refs/heads/foo", "refs/tags/master", "refs/tags/main", "refs/heads/master2", "refs/heads/x/master", "refs/heads/mai", "refs/notes/main"]
NAMES = "ABCD"


def commits():
    if not recv.COMMITS:
        for n in NAMES + "L":
            recv.commit(n)
        recv.commit("F", "fail")
        recv.commit("X", kind="nothing")
    return recv.COMMITS


def expected(ups):
    """The commit that this push deploys, or None; ups: [(ref, kind, commit)]"""
    for r in ("refs/heads/master", "refs/heads/main"):
        for ref, kind, c in ups:
            if ref == r and kind != "delete":
                return c
    return None


def lines(ups):
    r = []
    for ref, kind, c in ups:
        h = recv.COMMITS[c]["id"]
        r.append({"create": (recv.ZERO, h, ref), "update": (recv.COMMITS["L"]["id"], h, ref), "delete": (h, recv.ZERO, ref)}[kind])
    return r


def name(b, repo="site.git"):
    t = b.live(repo)
    return t if t is None else b.is_site(t) or "incomplete"


def archived(b):
    return [c[2][-1] for c in b.calls() if c[0] == "git" and "archive" in c[2][:3]]


def step(b, ups, live, what, bad):
    """One push; returns the live commit after it"""
    want = expected(ups)
    b.calls()
    dir0 = b.live_dir()
    r = b.push(lines(ups))
    calls = b.calls(False)
    now = name(b)
    ok = want is None or recv.COMMITS[want]["how"] == "ok"
    skip = want is not None and recv.COMMITS[want]["kind"] == "nothing"
    exp = want if want and ok and not skip else live
    if (r.rc == 0) != ok or r.rc not in (0, 1):
        bad.append("%s: %r" % (what, r))
    if now != exp:
        bad.append("%s: the live site is %r, not %r: %r" % (what, now, exp, r))
    if want is None and (b.live_dir() != dir0 or calls):
        bad.append("%s: nothing to deploy, but the live link was changed or programs ran: %r" % (what, calls[:2]))
    if want is None and b"warning" not in r.err:
        bad.append("%s: nothing deployed without saying so: %r" % (what, r))
    if want and ok and not skip and b.live_dir() == dir0:
        bad.append("%s: the site was not rebuilt" % what)
    for c in archived(b):
        if want is None or c != recv.COMMITS[want]["id"]:
            bad.append("%s: git archive was called with %r" % (what, c))
    return exp


def rebuild(b, live, how, what, bad):
    b.calls()
    dir0 = b.live_dir()
    hook = os.path.join(b.home, "repos/site.git/hooks/pre-receive")
    cwd, arg = {"here": (os.path.join(b.home, "repos/site.git"), "./hooks/pre-receive"), "hooks": (os.path.dirname(hook), "./pre-receive"), "home": (b.home, "repos/site.git/hooks/pre-receive"), "far": (b.d, hook), "link": (b.d, os.path.join(b.d, "lnk/hooks/pre-receive"))}[how]
    if how == "link" and not os.path.lexists(b.d + "/lnk"):
        os.symlink(os.path.join(b.home, "repos/site.git"), b.d + "/lnk")
    r = b.run([arg], cwd=cwd)
    now = name(b)
    if now != live:
        bad.append("%s: the live site is %r, not %r: %r" % (what, now, live, r))
    if (r.rc == 0) != (live is not None) or r.rc not in (0, 1):
        bad.append("%s: %r" % (what, r))
    if live and b.live_dir() == dir0:
        bad.append("%s: the site was not rebuilt: %r" % (what, r))
    for c in archived(b):
        if live is None or c != recv.COMMITS[live]["id"]:
            bad.append("%s: git archive was called with %r" % (what, c))
    if live is None and not r.err:
        bad.append("%s: refused without an error message" % what)
    return live


OPS = {"master A": [(REFS[0], "update", "A")], "master B": [(REFS[0], "update", "B")], "main B": [(REFS[1], "create", "B")], "foo C": [(REFS[2], "update", "C")], "tag D": [(REFS[3], "create", "D")],
       "remove master": [(REFS[0], "delete", "A")], "rename master C": [(REFS[0], "delete", "A"), (REFS[1], "create", "C")], "all": [(REFS[2], "create", "A"), (REFS[1], "update", "B"), (REFS[3], "create", "C"), (REFS[0], "update", "D")],
       "master F": [(REFS[0], "update", "F")], "master X": [(REFS[0], "update", "X")], "main F": [(REFS[1], "update", "F")]}


def real(case, d, bad):
    """A push with git itself"""
    _, fmt, first, ups = case
    d = procs.fresh(d)
    home = os.path.join(d, "home")
    repo = os.path.join(home, "repos", "site.git")
    work = os.path.join(d, "work")
    os.makedirs(os.path.dirname(repo))
    env = {"PATH": "/usr/bin:/bin:/usr/local/bin", "HOME": home, "LC_ALL": "C", "TZ": "UTC", "GIT_CONFIG_NOSYSTEM": "1", "GIT_AUTHOR_NAME": "a", "GIT_AUTHOR_EMAIL": "a@b", "GIT_COMMITTER_NAME": "a", "GIT_COMMITTER_EMAIL": "a@b", "GIT_AUTHOR_DATE": "1700000000 +0000", "GIT_COMMITTER_DATE": "1700000000 +0000"}
    saved, procs.ENV = procs.ENV, {}

    def git(*a, where=None, stdin=b"", ok=True):
        r = procs.run(["git"] + (["-C", where] if where else []) + list(a), cwd=d, env=env, stdin=stdin)
        if ok and r.rc:
            raise RuntimeError("git %s: %r" % (a, r))
        return r

    def live():
        p = os.path.join(repo, "htdocs")
        t = procs.tree(os.path.realpath(p)) if os.path.isdir(p) else None
        if t is None:
            return None
        v = t.get("site/name")
        return v[1].decode().strip() if v and set(t) == {"site", "site/name", "made"} and t["made"] == v else "incomplete %r" % t
    try:
        git("init", "-q", "--bare", "--object-format=" + fmt, repo)
        git("config", "receive.denyDeleteCurrent", "ignore", where=repo)
        git("init", "-q", "--object-format=" + fmt, work)
        mk = "all:\n\tmkdir -p $(OUTPUT_DIR)\n\tcp -R site $(OUTPUT_DIR)/\n\tcp site/name $(OUTPUT_DIR)/made\n"
        fi = "".join("commit refs/heads/c%s\nmark :%d\ncommitter a <a@b> 1700000000 +0000\ndata 1\n%s\nM 644 inline Makefile\ndata %d\n%s\nM 644 inline site/name\ndata 2\n%s\n\n" % (n, k + 1, n, len(m), m, n)
                     for k, n in enumerate("ABCDF") for m in [mk + ("\tfalse\n" if n == "F" else "")])
        git("fast-import", "--quiet", where=work, stdin=fi.encode())
        os.path.exists(repo + "/hooks") or os.mkdir(repo + "/hooks")
        os.symlink(recv.BIN["blogc-git-receiver"], repo + "/hooks/pre-receive")
        was = None
        for k, u in enumerate((first, ups)):
            if not u:
                continue
            specs = [":" + ref if kind == "delete" else "+c%s:%s" % (c, ref) for ref, kind, c in u]
            refs0 = git("for-each-ref", where=repo).out
            r = git("push", "--porcelain", repo, *specs, where=work, ok=False)
            want = expected(u)
            exp = want if want and want != "F" else was
            what = "git push %s (%s)" % (" ".join(specs), fmt)
            if live() != exp:
                bad.append("%s: the live site is %r, not %r: %r" % (what, live(), exp, r))
            if (r.rc == 0) == (want == "F"):
                bad.append("%s: %r" % (what, r))
            refs = git("for-each-ref", where=repo).out
            if (refs == refs0) != (want == "F"):
                bad.append("%s: references %r before, %r after" % (what, refs0, refs))
            was = exp
        r = procs.run([repo + "/hooks/pre-receive"], cwd=d, env=env)
        if live() != was or (r.rc == 0) != (was is not None):
            bad.append("rebuild after git push %s: the live site is %r, not %r: %r" % (ups, live(), was, r))
    finally:
        procs.ENV = saved
    return "real", was


def one(case, d):
    recv.tmp_clean()
    bad = []
    kind = case[0]
    if kind == "real":
        out = real(case, d, bad)
    else:
        b = recv.Site(d)
        live = None
        if kind == "push":
            start, ups = case[1:]
            if start:
                live = step(b, [(REFS[0], "create", "D")], live, "the first push", bad)
            live = step(b, ups, live, "push of %s" % (", ".join("%s %s" % (k, r) for r, k, c in ups) or "nothing"), bad)
            live = rebuild(b, live, "here", "rebuild after the push of %r" % (ups,), bad)
        else:
            for k, op in enumerate(case[1]):
                what = "history %s, step %d" % (list(case[1]), k + 1)
                live = rebuild(b, live, op[8:], what, bad) if op.startswith("rebuild ") else step(b, OPS[op], live, what, bad)
                if bad:
                    break
        out = (kind, live)
    if recv.tmp_left():
        bad.append("%s: temporary files left" % (case,))
        recv.tmp_clean()
    return {"bad": [m.replace(d, "~") for m in bad], "state": repr(case), "outcome": out, "tally": {kind: 1}, "steps": len(case[-1]) + 1}


def cases(th):
    # real pushes first: they take longest
    five = [(REFS[0], "update", "A"), (REFS[1], "update", "B"), (REFS[2], "update", "C"), (REFS[3], "create", "D"), ("refs/heads/a/master", "create", "C")]
    start = [(REFS[0], "create", "C"), (REFS[1], "create", "D"), (REFS[2], "create", "A")]
    for fmt in ("sha1", "sha256"):
        for n in range(1, 6):
            for s in itertools.combinations(five, n):
                if n < 3 or th or fmt == "sha1":
                    yield ("real", fmt, [], list(s))
        for n in range(1, 4):
            for s in itertools.combinations(range(3), n):
                for dels in itertools.product(("update", "delete", "F"), repeat=n):
                    if n < 3 or th:
                        yield ("real", fmt, start, [(start[i][0], "delete" if k == "delete" else "update", "F" if k == "F" else "ABB"[i]) for i, k in zip(s, dels)])
    kinds = ("create", "update", "delete")
    for n in range(0, 4):
        for refs in itertools.permutations(REFS, n):
            if n == 3 and not th and not set(refs) & set(REFS[:2]):
                continue
            for ks in itertools.product(kinds if n < 3 or th else kinds[1:], repeat=n):
                for start in (0, 1) if n < 3 or th else (1,):
                    yield ("push", start, [(r, k, NAMES[i]) for i, (r, k) in enumerate(zip(refs, ks))])
    if th:
        for refs in itertools.permutations(REFS[:6], 4):
            for ks in itertools.product(kinds[1:], repeat=4):
                yield ("push", 1, [(r, k, NAMES[i]) for i, (r, k) in enumerate(zip(refs, ks))])
    ops = list(OPS) + ["rebuild " + h for h in (("here", "hooks", "home", "far", "link"))]
    for n in range(1, 5 if th else 4):
        for w in itertools.product(ops if n < 3 or th and n < 4 else ops[:12] if n == 3 else [o for o in ops[:12] if o not in ("foo C", "tag D", "main F")], repeat=n):
            yield ("hist", w)


def main(tier):
    ck = vrun.Check("G03", tier)
    exe = vrun.harness("G03", ["blogc-git-receiver", "common"])
    ck.run_harness(exe)
    recv.setup()
    commits()
    ex = procs.Explorer(ck, one, "G03", unpriv=True)
    ex.all(list(cases(tier == "thorough")), "pushes")
    ex.close()
    return ck.finish(RULE, inproc.ASSUME + ["git and make are replaced by recording stand-ins in all but the real pushes"])


def replay(a):
    if a["kind"] == "harness":
        import check_G01
        return check_G01.inproc_replay(a, "G03")
    recv.setup()
    commits()
    return procs.replay(one, a, unpriv=True)
