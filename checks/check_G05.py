"""Mirroring and the settings of a repository: every combination of remotes and configuration files, every failing call and program, with recording stand-ins; and real mirrors with git."""
import itertools, os
import procs, recv, vrun
import inproc

RULE = "all configuration files of up to 3 sections out of 13 (the repository itself, spelled in different ways, others with similar names, others without a mirror or with an empty one), for 5 repositories, with and without a mirror remote (2 settings), found in 4 ways, run by git and by hand from 5 directories, for the mirror and for the live link; every mirror URL of up to 3 (thorough 4) tokens over shell characters; every call of the hook failing or being its end; every program failing or missing; real pushes with git"
REPOS = ["foo.git", "sub/foo.git", "fo.git", "a b.git", "foo.git2"]
# the sections; "e": empty mirror, "n": no mirror
SECTIONS = ["repo:foo.git", "repo:sub/foo.git", "repo:fo.git", "repo:a b.git", "repo:foo.git2", "repo:foo", "repo:foo.git/", "repo:gone.git", "foo.git", "repo:foo.git:e", "repo:foo.git:n", "repo:sub/foo.git:n", "repo:"]


def names(section, repo):
    s = section[:-2] if section[-2:] in (":e", ":n") else section
    return s.startswith("repo:") and s[5:].strip("/") == repo


def ini(secs, key):
    """The file, and {section: value}"""
    t, val = "[global]\n%s = wrong\n" % key, {}
    for k, s in enumerate(secs):
        n, v = s, "u%d" % k
        if s[-2:] == ":e":
            n, v = s[:-2], ""
        elif s[-2:] == ":n":
            n, v = s[:-2], None
        t += "[%s]\nother = %s\n%s\n" % (n, "o%d" % k, "" if v is None else "%s = %s" % (key, v if key == "mirror" or not v else "@/www/" + v))
        val[s] = v
    return t, val


def expected(secs, val, repo):
    """The values that the settings of this repository may give; None: none"""
    mine = [s for s in secs if names(s, repo)]
    return {val[s] for s in mine} or {None}


def box(d, how, text):
    b = recv.Site(d, repos=REPOS)
    env, unset = {}, []
    if how == "link":
        os.rename(b.home, b.d + "/real")
        os.symlink("real", b.home)
    elif how == "base":
        env, unset = {"BLOGC_GIT_RECEIVER_BASE_DIR": b.home, "HOME": b.d + "/nohome"}, []
        procs.plant(b.d, {"nohome/blogc-git-receiver.ini": "[repo:foo.git]\nmirror = wronghome\nsymlink = /nonexistent/wrong\n", "nohome/repos/foo.git/HEAD": "x"})
    elif how == "slash":
        env = {"HOME": b.home + "/"}
    elif how == "nobase":
        unset = ["HOME"]
    b.env.update(env)
    for u in unset:
        b.env.pop(u, None)
    if text is not None:
        with open(os.path.join(b.home, "blogc-git-receiver.ini"), "w") as f:
            f.write(text.replace("@/www", b.d + "/www"))
    return b


def post(b, repo, where="git", **kw):
    p = os.path.join(b.home, "repos", repo)
    cwd, arg, env = {"git": (p, "hooks/post-receive", {"GIT_DIR": "."}), "here": (p, "./hooks/post-receive", {}), "home": (b.home, os.path.join("repos", repo, "hooks/post-receive"), {}), "hooks": (p + "/hooks", "./post-receive", {}), "far": (b.d, p + "/hooks/post-receive", {}), "link": (b.d, b.d + "/lnk/hooks/post-receive", {})}[where]
    if where == "link":
        os.symlink(p, b.d + "/lnk")
    b.calls()
    return b.run([arg], cwd=cwd, env=env, stdin=b"%s %s refs/heads/master\n" % (b"0" * 40, b"1" * 40), **kw)


def pushes(b, repo, bad, what):
    """The mirrors that were pushed to"""
    r = []
    for name, cwd, args in b.calls():
        if name != "git":
            bad.append("%s: ran %r" % (what, (name, args)))
        elif "push" in args:
            if os.path.realpath(cwd) != os.path.realpath(os.path.join(b.home, "repos", repo)):
                bad.append("%s: pushed from %s" % (what, cwd))
            rest = [a for a in args[args.index("push") + 1:] if a not in ("--mirror", "--")]
            if "--mirror" not in args:
                bad.append("%s: ran git %r" % (what, args))
            r.append(" | ".join(rest) if rest else "the default remote")
        elif args[:1] not in (["config"], ["remote"], ["-C"]):
            bad.append("%s: ran git %r" % (what, args))
    return r


def mirror(case, d, bad):
    _, secs, repo, remote, how, where = case
    text, val = (secs, {}) if isinstance(secs, str) or secs is None else ini(secs, "mirror")
    b = box(d, how, text)
    for k in remote:
        open(os.path.join(b.stub, "config", "remote.mirror." + k), "w").write("ssh://remote\n")
    r = post(b, repo, where)
    what = "settings %r, remote %r, %s, from %s, push to %s" % (secs, remote, how, where, repo)
    got = pushes(b, repo, bad, what)
    want = {"mirror"} if remote else {None} if how == "nobase" or not val else expected(secs, val, repo)
    want = {w or None for w in want}
    if len(got) > 1 or (got[0] if got else None) not in want:
        bad.append("%s: mirrored to %r, not %r: %r" % (what, got, sorted(map(str, want)), r))
    if r.rc:
        bad.append("%s: %r" % (what, r))
    if not got and b"warning" not in r.err:
        bad.append("%s: not mirrored without a warning: %r" % (what, r))
    return tuple(got), r.rc


def url(case, d, bad):
    u = case[1]
    b = box(d, "home", '[repo:foo.git]\nmirror = %s\n' % (u.replace("\\", "\\\\") if '"' in u else '"%s"' % u.replace("\\", "\\\\")))
    r = post(b, "foo.git")
    got = pushes(b, "foo.git", bad, "mirror = %s" % u)
    want = [u] if u.strip() else []
    if got not in (want, [u] if u else []) and not (u.strip() not in ("", u) and got == [u.strip()]):
        bad.append("mirror = %s: pushed to %r: %r" % (u, got, r))
    if r.rc:
        bad.append("mirror = %s: %r" % (u, r))
    return tuple(got), r.rc


def link(case, d, bad):
    _, secs, repo, how = case
    text, val = ini(secs, "symlink")
    b = box(d, how, text)
    os.makedirs(b.d + "/www")
    r = b.deploy("A", repo)
    what = "settings %r, %s, push to %s" % (secs, how, repo)
    default = os.path.join(os.path.realpath(b.home), "repos", repo, "htdocs")
    cand = [os.path.join(b.d, "www", "u%d" % k) for k in range(4)] + [os.path.join(os.path.realpath(b.home), "repos", q, "htdocs") for q in REPOS]
    live = [p for p in cand if os.path.lexists(p)]
    want = {default if v is None else os.path.join(b.d, "www", v) for v in expected(secs, val, repo) if v != ""}
    if "" in expected(secs, val, repo):                    # an empty link name is not specified
        return "empty", r.rc
    if len(live) != 1 or live[0] not in want or b.is_site(procs.tree(os.path.realpath(live[0]))) != "A":
        bad.append("%s: the live link is %r, not %r: %r" % (what, live, sorted(want), r))
    if r.rc:
        bad.append("%s: %r" % (what, r))
    return len(live), r.rc


def fault(case, d, bad):
    _, sit, n, mode, desc = case
    b, remote = sitbox(d, sit)
    r = post(b, "foo.git", fi=dict(names=["blogc-git-receiver"], classes="fc", n=n, mode=mode, dirs=[b.d]))
    got = pushes(b, "foo.git", bad, desc)
    kill = mode in ("kill", "torn")
    if len(got) > 1 or got and got[0] not in (["mirror", "u0"] if remote else ["u0"]):
        bad.append("%s: %s: mirrored to %r" % (sit, desc, got))
    if not kill and (r.rc not in (0, 1) or not got and not r.err):
        bad.append("%s: %s: %r, mirrored to %r" % (sit, desc, r, got))
    return tuple(got), r.rc


def sitbox(d, sit):
    b = box(d, "home", "[repo:fo.git]\nmirror = wrong\n[repo:foo.git]\nmirror = u0\n[repo:foo.git2]\nmirror = wrong\n" if sit != "remote" else "[repo:fo.git]\nmirror = wrong\n")
    remote = sit in ("remote", "both")
    if remote:
        open(os.path.join(b.stub, "config", "remote.mirror.pushurl"), "w").write("ssh://remote\n")
    return b, remote


def prog(case, d, bad):
    _, sit, what = case
    b, remote = sitbox(d, sit)
    if what == "no git":
        os.unlink(os.path.join(b.bin, "git"))
    else:
        b.fail(what)
    r = post(b, "foo.git")
    got = pushes(b, "foo.git", bad, what)
    if r.rc or not r.err and what != "git config":
        bad.append("%s: %s: a failing mirror must be a warning: %r" % (sit, what, r))
    want = "u0" if not remote else "mirror"
    if any(g != want and not (what in ("git", "git config") and g == "u0") for g in got):
        bad.append("%s: %s: mirrored to %r" % (sit, what, got))
    return tuple(got), r.rc


def real(case, d, bad):
    """git push, with real mirrors"""
    _, how, ops = case
    d = procs.fresh(d)
    home = os.path.join(d, "home")
    repo, work = home + "/repos/foo.git", d + "/work"
    os.makedirs(home + "/repos")
    env = {"PATH": "/usr/bin:/bin:/usr/local/bin", "HOME": home, "LC_ALL": "C", "TZ": "UTC", "GIT_CONFIG_NOSYSTEM": "1"}
    saved, procs.ENV = procs.ENV, {}

    def git(*a, where=None, stdin=b"", ok=True):
        r = procs.run(["git"] + (["-C", where] if where else []) + list(a), cwd=d, env=env, stdin=stdin)
        if ok and r.rc:
            raise RuntimeError("git %s: %r" % (a, r))
        return r
    try:
        for p in (repo, d + "/m.git", d + "/m 2.git", d + "/other.git"):
            git("init", "-q", "--bare", p)
        git("config", "receive.denyDeleteCurrent", "ignore", where=repo)
        for m in ("/m.git", "/m 2.git"):
            git("config", "receive.denyDeleteCurrent", "ignore", where=d + m)
        git("init", "-q", work)
        git("fast-import", "--quiet", where=work, stdin="".join("commit refs/heads/c%s\nmark :%d\ncommitter a <a@b> 1700000000 +0000\ndata 1\n%s\nM 644 inline f\ndata 1\n%s\n\n" % (n, k + 1, n, n) for k, n in enumerate("ABC")).encode())
        os.path.exists(repo + "/hooks") or os.mkdir(repo + "/hooks")
        os.symlink(recv.BIN["blogc-git-receiver"], repo + "/hooks/post-receive")
        m = d + ("/m 2.git" if how == "space" else "/gone.git" if how == "gone" else "/m.git")
        if how == "remote":
            git("remote", "add", "--mirror=push", "mirror", m, where=repo)
        open(home + "/blogc-git-receiver.ini", "w").write("[repo:other.git]\nmirror = %s/other.git\n[repo:foo.git]\n%s\n" % (d, "mirror = %s" % m if how in ("ini", "space", "gone") else "mirror = %s/other.git" % d if how == "remote" else ""))
        for spec in ops:
            r = git("push", "--porcelain", repo, *spec.split(), where=work, ok=False)
            if r.rc:
                bad.append("git push %s with mirror by %s: %r" % (spec, how, r))
            refs = git("for-each-ref", where=repo).out
            if how not in ("none", "gone") and git("for-each-ref", where=m).out != refs:
                bad.append("git push %s with mirror by %s: the mirror has %r, not %r: %r" % (spec, how, git("for-each-ref", where=m).out, refs, r))
            if git("for-each-ref", where=d + "/other.git").out:
                bad.append("git push %s with mirror by %s: mirrored to another place" % (spec, how))
    finally:
        procs.ENV = saved
    return how, len(ops)


def one(case, d):
    recv.tmp_clean()
    bad = []
    out = {"mirror": mirror, "url": url, "link": link, "fault": fault, "prog": prog, "real": real}[case[0]](case, d, bad)
    recv.tmp_clean()
    return {"bad": [m.replace(d, "~") for m in bad], "state": repr(case), "outcome": (case[0], out), "tally": {case[0]: 1}, "steps": 1}


def collect(case, d):
    sit = case[0]
    b, remote = sitbox(d, sit)
    log = os.path.join(d, "log")
    r = post(b, "foo.git", fi=dict(names=["blogc-git-receiver"], classes="fc", log=log, dirs=[b.d]))
    bad = []
    got = pushes(b, "foo.git", bad, sit)
    if r.rc or not got:
        raise vrun.Broken("%s: %r, mirrored to %r" % (sit, r, got))
    pts = procs.points(log)
    for p in pts:
        p["what"] = p["what"].replace(b.d, "~")
    return {"bad": [], "pts": pts}


def cases(th):
    pushes = ["cA:refs/heads/master", "cB:refs/heads/x cC:refs/tags/t", "+cC:refs/heads/master", ":refs/heads/x", "cA:refs/heads/y :refs/tags/t"]
    for how in ("ini", "remote", "space", "none", "gone"):
        for w in ([pushes] if not th else [pushes, pushes[:1], pushes[:2] + pushes[4:], pushes[:3]]):
            yield ("real", how, w)
    base = procs.scratch("G05p")
    os.chmod(base, 0o711)
    res = {c: (r, e) for c, r, e in procs._workers(collect, [(s,) for s in ("ini", "remote", "both")], base, 3, True, lambda: False)}
    for (sit,), (r, e) in sorted(res.items()):
        if r and r["bad"]:
            raise vrun.Broken(r["bad"][0])
        if e:
            raise RuntimeError(e)
        for p in r["pts"]:
            for n, mode, desc in procs.faults([p], ("err", "kill", "short")):
                yield ("fault", sit, n, mode, desc)
    for sit in ("ini", "remote", "both"):
        for what in ("no git", "git", "git push", "git config"):
            yield ("prog", sit, what)
    for u in ["~user/x", "git@host:a/b.git", "https://x:y@host/p?a=1&b=2", "/a b/c", 'x"y', "ssh://[::1]:22/~/x"]:
        yield ("url", u)
    tok = ["a", " ", ";", "&", "$(x)", "`x`", "$HOME", "'", "|", ">f", "#", "!", "\\", "*", "(", "\t", "//"]
    for n in range(0, 5 if th else 4):
        for w in itertools.product(tok if n < 4 else tok[:9], repeat=n):
            if n < 4 or w[0] == "a":
                yield ("url", "".join(w))
    sets = [w for n in range(0, 4) for w in itertools.permutations(range(len(SECTIONS)), n)]
    for w in sets:
        secs = tuple(SECTIONS[i] for i in w)
        if len({s[:-2] if s[-2:] in (":e", ":n") else s for s in secs}) != len(secs):
            continue                                        # the same section twice
        for repo in REPOS if len(w) < 3 or th else REPOS[:2]:
            if len(w) == 3 and not th and not any(names(s, repo) for s in secs):
                continue
            for remote in ((), ("pushurl",), ("url",), ("pushurl", "url")) if len(w) < 2 else ((), ("url",)) if len(w) < 3 else ((),):
                for how in ("home", "link", "base", "slash") if len(w) < 2 or th and len(w) < 3 else ("home",):
                    for where in ("git", "here", "hooks", "home", "far", "link") if len(w) < 2 and how in ("home", "link") else ("git",):
                        yield ("mirror", secs, repo, remote, how, where)
            for how in ("home", "link", "base", "slash") if len(w) < 2 else ("home",):
                if len(w) < 3 or th:
                    yield ("link", secs, repo, how)
    for repo in REPOS[:2]:
        for remote in ((), ("url",)):
            for text in (None, "", "x[repo:foo.git]\nmirror = a\n", "[repo:foo.git\nmirror = a\n", "[repo:foo.git]\nmirror\n", "[repo:foo.git]\nmirror = \"a\n"):
                for where in ("git", "home"):
                    yield ("mirror", text, repo, remote, "home", where)
            yield ("mirror", ("repo:foo.git", "repo:sub/foo.git"), repo, remote, "nobase", "git")


def main(tier):
    ck = vrun.Check("G05", tier)
    recv.setup()
    recv.COMMITS or recv.commit("A")
    ex = procs.Explorer(ck, one, "G05", unpriv=True)
    ex.all(list(cases(tier == "thorough")), "mirrors and settings")
    ex.close()
    return ck.finish(RULE, inproc.ASSUME + ["git is replaced by a recording stand-in in all but the real pushes"])


def replay(a):
    recv.setup()
    recv.COMMITS or recv.commit("A")
    return procs.replay(one, a, unpriv=True)
