"""The login shell: the command parser in-process (harness/G01.cpp), and the program with recording stand-ins for git and git-shell."""
import itertools, os
import procs, recv, vrun
import inproc

RULE = "the command parser on all words over four alphabets up to the bound and every edit of the service names, against a reference reading of the quoting; the program itself, by its three ways to be called, with all names of up to 3 (thorough 4) tokens over paths, quotes and shell characters, malformed commands and every length around the limit: what it ran (recording stand-ins), with which arguments, and what changed in the file system"
SERVICES = ("git-receive-pack", "git-upload-pack", "git-upload-archive")
TOK = ["a", "b.git", "/", "..", ".", "'", "!", "$(x)", "`x`", ";x;", "\n", "\"", " ", "~", "-", "&x ", "\\", "*"]
PRE = {"repos/old.git/HEAD": "x\n", "repos/old.git/hooks/keep": "k", "secret.git/HEAD": "s\n", "blogc-git-receiver.ini": "[x]\n", "outside/f": "1"}


def quote(n):
    return "'" + n.replace("'", "'\\''").replace("!", "'\\!'") + "'"


def dequote(s):
    """One word of '...' pieces and \\' \\! escapes, or None"""
    r, i = "", 0
    while i < len(s):
        if s[i] == "'":
            j = s.find("'", i + 1)
            if j < 0:
                return None
            r += s[i + 1:j]
            i = j + 1
        elif s[i] == "\\" and s[i + 1:i + 2] in ("'", "!") and s[i + 1:i + 2]:
            r += s[i + 1]
            i += 2
        else:
            return None
    return r


def reference(cmd):
    """(service, path below repos) or None"""
    svc, sp, rest = cmd.partition(" ")
    if not sp or svc not in SERVICES:
        return None
    n = dequote(rest)
    if not n:
        return None
    parts = [p for p in n.split("/") if p not in ("", ".")]
    if ".." in parts or not parts:
        return None
    return svc, "/".join(parts)


def one(case, d):
    route, cmd = case
    b = recv.Box(d)
    procs.plant(b.home, PRE)
    if route == "shell":
        r = b.run([b.self, "-c", cmd])
    elif route == "login":
        r = b.run(["-blogc-git-receiver", "-c", cmd], exe=b.self)
    elif route == "ssh":
        r = b.run([b.self], env={"SSH_ORIGINAL_COMMAND": cmd}, unset=["SHELL"])
    else:                       # not a way to run a command at all
        argv = {"extra": [b.self, "-c", cmd, "x"], "long": [b.self, "--command", cmd], "relative": ["blogc-git-receiver"], "none": [b.self], "two": [b.self, cmd]}[route]
        r = b.run(argv, exe=b.self, env={"SSH_ORIGINAL_COMMAND": cmd} if route in ("relative", "two", "extra") else {})
    calls = b.calls()
    want = reference(cmd) if route in ("shell", "login", "ssh") else None
    after = procs.tree(b.home)
    bad = []
    repo = want and "repos/" + want[1]
    other = [c for c in calls if not (c[0] == "git-shell" or c[0] == "git" and c[2][:1] == ["init"])]
    if other:
        bad.append("ran %r" % (other[:3],))
    shells = [c for c in calls if c[0] == "git-shell"]
    if len(shells) > 1:
        bad.append("ran git-shell more than once")
    toolong = len(cmd) > 1000 or any(len(p) > 200 for p in cmd.split('/'))   # the system may refuse such names
    if want is None:
        if calls:
            bad.append("a refused command ran %r" % (calls[:3],))
        if r.rc == 0 or r.rc >= 120 or not r.err:
            bad.append("refused without an error: %r" % r)
        exp = procs_tree()
        if after != exp:
            bad.append("a refused command changed files: " + procs.diff(exp, after))
    else:
        full = os.path.join(b.home, repo)
        if not shells:
            if not (toolong and r.rc not in (0,) and r.rc < 120 and r.err):
                bad.append("a valid command was not run: %r, calls %r" % (r, calls[:3]))
        else:
            a = shells[0][2]
            got = None
            if len(a) == 2 and a[0] == "-c":
                s, sp, w = a[1].partition(" ")
                p = dequote(w)
                if p is not None:
                    got = (s, recv.norm(os.path.join(shells[0][1], p)))
            if got != (want[0], recv.norm(full)):
                bad.append("git-shell was given %r in %s, not %s on %s" % (a, shells[0][1], want[0], full))
        for c in calls:
            if c[0] == "git" and recv.norm(os.path.join(c[1], c[2][-1])) != recv.norm(full):
                bad.append("git was run as %r" % (c,))
        inside = lambda p: p == repo or p.startswith(repo + "/") or repo.startswith(p + "/")
        x, y = {p: v for p, v in procs_tree().items() if not inside(p)}, {p: v for p, v in after.items() if not inside(p)}
        if x != y and not toolong:
            bad.append("files outside of the repository changed: " + procs.diff(x, y))
        if want[0] != SERVICES[0] and after != procs_tree():
            bad.append("reading changed files: " + procs.diff(procs_tree(), after))
    bad = ["%s %r: %s" % (route, cmd if len(cmd) < 300 else cmd[:300] + "...", m) for m in bad]
    return {"bad": bad, "state": (route, want), "outcome": (r.rc, tuple((c[0], tuple(c[2])) for c in calls))[:2000], "tally": {"programs run": 1}}


_tree = {}


def procs_tree():
    if not _tree:
        d = procs.scratch("G01t")
        procs.plant(d, PRE)
        _tree.update(procs.tree(d))
    return _tree


def cases(th):
    seen = set()

    def c(route, cmd):
        if (route, cmd) not in seen and "\0" not in cmd:
            seen.add((route, cmd))
            yield route, cmd
    for n in range(0, 5):
        toks = TOK if n < 4 else TOK[:14] if th else TOK[:8]
        for w in itertools.product(toks, repeat=n):
            name = "".join(w)
            yield from c("shell", "git-receive-pack " + quote(name))
            if n < 3:
                yield from c("ssh", "git-receive-pack " + quote(name))
                yield from c("login", "git-upload-pack " + quote(name))
                yield from c("shell", "git-upload-archive " + quote(name))
                yield from c("shell", "git-receive-pack " + name)
                for k in ("extra", "long", "relative", "none", "two"):
                    yield from c(k, "git-receive-pack " + quote(name))
    # malformed: raw pieces in every arrangement
    for n in range(1, 4):
        for w in itertools.product(["'", "'a'", "\\'", "\\!", " ", ";x", "$(x)", "/", "\\", "'b'"], repeat=n):
            yield from c("shell", "git-receive-pack " + "".join(w))
    for svc in ["", "git", "git-shell", "git receive-pack", "git-receive-packs", "git-receive-pac", "Git-receive-pack", "git-upload-", "git-upload-x", "git-upload-pack;x", "x", "/bin/sh", "git-upload-pack\n", " git-upload-pack", "git-upload-archive2"]:
        for tail in ["", " ", " 'a'", "'a'", "\t'a'"]:
            for k in ("shell", "ssh"):
                yield from c(k, svc + tail)
    for svc in SERVICES:
        for n in list(range(3900, 4120, 1 if th else 7)) + list(range(4020, 4100)) + [200, 255, 256, 1023, 1024, 8000]:
            for unit in ("a", "a/", "'"):
                if svc != SERVICES[0] or n < 300:
                    yield from c("shell", svc + " " + quote((unit * n)[:n]))
        for n in (250, 255, 256, 300, 3000, 4090, 4096, 5000):
            yield from c("shell", svc + " " + quote("b" * n))
            yield from c("shell", svc + " " + quote("/".join(["b" * 99] * (n // 100))))


def main(tier):
    ck = vrun.Check("G01", tier)
    exe = vrun.harness("G01", ["blogc-git-receiver", "common"])
    ck.run_harness(exe)
    recv.setup()
    procs_tree()
    ex = procs.Explorer(ck, one, "G01", unpriv=True)
    ex.all(list(cases(tier == "thorough")), "programs")
    ex.close()
    return ck.finish(RULE, inproc.ASSUME + ["git and git-shell are replaced by recording stand-ins; links placed below repos/ by the administrator are followed"])


def replay(a):
    if a["kind"] == "harness":
        return inproc_replay(a)
    recv.setup()
    procs_tree()
    return procs.replay(one, a, unpriv=True)


def inproc_replay(a, name="G01"):
    import subprocess
    exe = vrun.harness(name, ["blogc-git-receiver", "common"])
    p = os.path.join(vrun.BUILD, "replay.hex")
    open(p, "w").write(a["hex"])
    return subprocess.run([exe, "--replay", p], env=dict(os.environ, TZ="UTC", LC_ALL="C", ASAN_OPTIONS="detect_leaks=0")).returncode
