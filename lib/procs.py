"""Exploration of whole programs: scratch directories, trees as values, fault points (shim/fi.c), a pool of workers."""
import atexit, hashlib, multiprocessing, multiprocessing.connection, os, shutil, signal, subprocess, sys, tempfile, time, traceback
import vrun

_fi = None


def fi():
    global _fi
    if _fi is None:
        _fi = vrun.tool("fi")
    return _fi


ENV = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "LC_ALL": "C", "TZ": "UTC", "HOME": "/nonexistent"}
ERR = {"EPERM": 1, "ENOENT": 2, "EIO": 5, "EAGAIN": 11, "ENOMEM": 12, "EACCES": 13, "EEXIST": 17, "EXDEV": 18, "ENOTDIR": 20, "EMFILE": 24, "ENOSPC": 28, "EROFS": 30, "EPIPE": 32, "ECONNRESET": 104}
FAULTS = {
    "open": ["EACCES", "EMFILE"], "openat": ["EACCES", "EMFILE"], "creat": ["EACCES"],
    "read": ["EIO"], "pread64": ["EIO"], "readv": ["EIO"], "recvfrom": ["ECONNRESET"],
    "write": ["ENOSPC"], "pwrite64": ["ENOSPC"], "writev": ["ENOSPC"], "sendto": ["EPIPE"], "sendfile": ["EIO"], "copy_file_range": ["EIO"],
    "close": ["EIO"], "fsync": ["EIO"], "fdatasync": ["EIO"], "ftruncate": ["EIO"], "truncate": ["EIO"], "getdents64": ["EIO"], "lseek": [],
    "stat": ["EACCES"], "lstat": ["EACCES"], "newfstatat": ["EACCES"], "statx": ["EACCES"], "fstat": ["EIO"], "access": ["EACCES"], "faccessat": ["EACCES"], "faccessat2": ["EACCES"],
    "mkdir": ["EACCES", "ENOSPC"], "mkdirat": ["EACCES", "ENOSPC"], "rmdir": ["EACCES"], "unlink": ["EACCES"], "unlinkat": ["EACCES"],
    "rename": ["EACCES"], "renameat": ["EACCES"], "renameat2": ["EACCES"], "symlink": ["ENOSPC"], "symlinkat": ["ENOSPC"], "link": ["EACCES"], "linkat": ["EACCES"],
    "readlink": ["EACCES"], "readlinkat": ["EACCES"], "chmod": ["EPERM"], "fchmod": ["EPERM"], "chdir": ["EACCES"], "utimensat": ["EPERM"],
    "fork": ["EAGAIN"], "vfork": ["EAGAIN"], "clone": ["EAGAIN"], "clone3": ["EAGAIN"], "execve": ["EACCES"], "pipe": ["EMFILE"], "pipe2": ["EMFILE"], "getcwd": ["ENOENT"],
    "accept": ["EMFILE"], "accept4": ["EMFILE"], "shutdown": ["EIO"],
}
MOVES = {"read", "write", "pread64", "pwrite64", "recvfrom", "sendto", "sendfile", "copy_file_range"}


class Out:
    def __init__(self, rc, out, err, wall):
        self.rc, self.out, self.err, self.wall = rc, out, err, wall

    def __repr__(self):
        return "exit %d, output %r, errors %r" % (self.rc, self.out[:200], self.err[:300])


def run(cmd, cwd=None, env=None, stdin=b"", timeout=30, **kw):
    e = dict(ENV)
    e.update(env or {})
    t = time.time()
    si = dict(stdin=stdin) if not isinstance(stdin, (bytes, bytearray)) else dict(stdin=subprocess.PIPE if stdin else subprocess.DEVNULL)
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=kw.pop("stdout", subprocess.PIPE), stderr=kw.pop("stderr", subprocess.PIPE), start_new_session=True, **si, **kw)
    try:
        out, err = p.communicate(stdin if isinstance(stdin, (bytes, bytearray)) and stdin else None, timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, err = p.communicate()
        rc = 124
    return Out(rc if rc >= 0 else 128 - rc, out or b"", err or b"", time.time() - t)


def with_fi(cmd, dirs, names=(), classes="f", log=None, n=None, mode=None, hook=None, timeout=20, letgo=False, first=False):
    c = [fi()]
    for d in dirs:
        c += ["-s", d]
    for x in names:
        c += ["-x", x]
    c += ["-k", classes, "-t", str(timeout)]
    if first:
        c += ["-1"]
    if letgo:
        c += ["-d"]
    if log:
        c += ["-l", log]
    if n is not None:
        c += ["-n", str(n)]
    if mode:
        c += ["-m", mode]
    if hook:
        c += ["-H", hook]
    return c + ["--"] + list(cmd)


def points(log):
    res = []
    for line in open(log, errors="replace"):
        f = line.rstrip("\n").split("\t")
        if len(f) == 6:
            res.append({"n": int(f[0]), "proc": int(f[1]), "exe": f[2], "call": f[3], "what": f[4], "len": int(f[5])})
    return res


def faults(pts, kinds=("err", "short")):
    """All single faults at the points of a run: (point, mode, description)."""
    res = []
    for p in pts:
        w = "%s(%s) #%d of %s" % (p["call"], p["what"], p["n"], p["exe"])
        if "err" in kinds:
            for e in FAULTS.get(p["call"], []):
                res.append((p["n"], "err:%d" % ERR[e], "%s fails with %s" % (w, e)))
        if "short" in kinds and p["call"] in MOVES:
            res.append((p["n"], "short", w + " moves half of the bytes"))
            res.append((p["n"], "one", w + " moves one byte"))
        if "kill" in kinds:
            res.append((p["n"], "kill", "killed before " + w))
            if p["call"] == "write":
                res.append((p["n"], "torn", "killed in the middle of " + w))
    return res


# ------------------------------------------------------------------------------------------------ trees
def tree(root, content=True, times=False):
    """{relative path: ('d',) | ('f', bytes) | ('l', target)} without following links."""
    res = {}
    for d, ds, fs in os.walk(root):
        for n in ds + fs:
            p = os.path.join(d, n)
            r = os.path.relpath(p, root)
            if os.path.islink(p):
                res[r] = ("l", os.readlink(p))
            elif os.path.isdir(p):
                res[r] = ("d",)
            elif os.path.isfile(p):
                v = ("f", open(p, "rb").read() if content else b"")
                if times:
                    v += (os.stat(p).st_mtime_ns,)
                res[r] = v
            else:
                res[r] = ("?",)
    return res


def plant(root, t):
    """Writes a tree given as {path: bytes/str | None (directory) | ('l', target)}."""
    os.makedirs(root, exist_ok=True)
    for p, v in t.items():
        f = os.path.join(root, p)
        if v is None:
            os.makedirs(f, exist_ok=True)
            continue
        os.makedirs(os.path.dirname(f), exist_ok=True)
        if isinstance(v, tuple):
            if v[0] == "l":
                os.symlink(v[1], f)
            elif v[0] == "f":
                open(f, "wb").write(v[1])
            elif v[0] == "d":
                os.makedirs(f, exist_ok=True)
        else:
            open(f, "wb").write(v if isinstance(v, bytes) else v.encode())


def diff(a, b, na="expected", nb="found"):
    r = []
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            r.append("%s: %s %r, %s %r" % (k, na, (a.get(k) or "nothing") if k in a else "nothing", nb, b.get(k) if k in b else "nothing"))
    return "; ".join(x[:300] for x in r[:5])


def scratch(tag):
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
    d = tempfile.mkdtemp(prefix="verif-%s-" % tag, dir=base)
    atexit.register(shutil.rmtree, d, True)
    return d


# ------------------------------------------------------------------------------------------------ pool
_fn = None
_dir = None


def _init(fn, base, uids=None):
    """uids: a counter of unprivileged users to run as, one per worker; code that deletes files can then reach nothing else."""
    global _fn, _dir
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _fn = fn
    _dir = os.path.join(base, "w%d" % os.getpid())
    os.makedirs(_dir, exist_ok=True)
    if uids is not None:
        with uids.get_lock():
            uids.value += 1
            uid = uids.value
        if os.getuid() == 0:
            os.chown(_dir, uid, uid)
            os.setgroups([])
            os.setresgid(uid, uid, uid)
            os.setresuid(uid, uid, uid)
            import ctypes
            ctypes.CDLL(None).prctl(4, 1, 0, 0, 0)   # stays traceable after the change of user
    os.umask(0o022)


def _call(case):
    try:
        return case, _fn(case, _dir), None
    except vrun.Broken as e:
        return case, {"bad": [str(e)]}, None
    except Exception:
        return case, None, traceback.format_exc()


class Explorer:
    """Runs fn(case, scratch) -> {'bad': [messages], 'state': hashable, 'outcome': hashable, 'steps': n, 'tally': {..}} on all cases."""

    def __init__(self, ck, fn, tag, workers=None, unpriv=False):
        self.unpriv = unpriv
        self.ck, self.fn, self.tag = ck, fn, tag
        self.workers = workers or vrun.NPROC
        self.states, self.outcomes, self.n, self.steps, self.tally = set(), set(), 0, 0, {}
        self.base = scratch(tag)
        os.chmod(self.base, 0o711)

    def all(self, cases, name="", keep=6, budget=None):
        t0 = time.time()
        n0 = self.n
        cases = list(cases)
        stop, errs = None, []
        for case, res, exc in _workers(self.fn, cases, self.base, self.workers, self.unpriv, lambda: stop):
            if stop == "error":
                continue
            self.n += 1
            if exc:
                errs.append("check failed on %r\n%s" % (case, exc))
                if len(errs) > 40:
                    stop = "error"
                continue
            self.steps += res.get("steps", 1)
            self.states.add(res.get("state", repr(case)))
            self.outcomes.add(res.get("outcome", repr(case)))
            for k, v in res.get("tally", {}).items():
                self.tally[k] = self.tally.get(k, 0) + v
            if len(self.ck.cov["samples"]) < 12 and self.n % 37 == 1:
                self.ck.cov["samples"].append({"case": repr(case)[:400], "outcome": repr(res.get("outcome"))[:400]})
            for k, msg in res.get("known", ()):   # deviations with a key of KNOWN_FINDINGS.txt
                if k in self.ck.known:
                    self.ck.known_seen[k] = self.ck.known[k]
                elif not res["bad"]:
                    self.ck.violation(k, msg, {"kind": "case", "tag": self.tag, "case": case, "messages": [msg]})
            if res["bad"] and len(self.ck.violations) < keep:
                again = _again(self.fn, case, self.base, self.unpriv)
                if again:
                    self.ck.violation(res.get("key", repr(case)), again[0] + "\ncase: %r" % (case,), {"kind": "case", "tag": self.tag, "case": case, "messages": again})
                else:
                    self.ck.log("not reproducible, ignored: %r %s" % (case, res["bad"][0][:300]))
                    self.tally["unreproducible"] = self.tally.get("unreproducible", 0) + 1
            if len(self.ck.violations) >= keep:
                stop = "violations"
                self.ck.cov["exhaustive"] = False
            if budget and time.time() - t0 > budget:
                stop = "budget"
                self.ck.cov["exhaustive"] = False
                self.tally["stopped by budget"] = 1
        if errs and not self.ck.violations:
            raise RuntimeError(errs[0])
        for e in errs[:3]:
            self.ck.log(e)
        self.ck.log("%s %s: %d cases, %d states, %d outcomes, %d steps, %.1fs" % (self.tag, name, self.n - n0, len(self.states), len(self.outcomes), self.steps, time.time() - t0))

    def close(self):
        self.ck.add(states=len(self.states), transitions=self.steps, validated=self.n, evaluations=self.n, distinct=len(self.outcomes), tally=self.tally)
        shutil.rmtree(self.base, ignore_errors=True)


def _workers(fn, cases, base, workers, unpriv, stop, uid0=61000):
    """Yields (case, result, error) from forked workers that take the cases in order; stops handing out cases once stop() is true."""
    nxt = multiprocessing.Value("q", 0, lock=True)
    halt = multiprocessing.RawValue("b", 0)
    uids = multiprocessing.Value("i", uid0) if unpriv else None
    chunk = 1 if len(cases) < 400 else 4
    pipes, pids = [], []
    sys.stdout.flush()
    sys.stderr.flush()
    for _ in range(min(workers, max(1, len(cases)))):
        r, w = multiprocessing.Pipe(False)
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                for q in pipes:
                    q.close()
                r.close()
                _init(fn, base, uids)
                while not halt.value:
                    with nxt.get_lock():
                        i = nxt.value
                        nxt.value += chunk
                    if i >= len(cases):
                        break
                    for k in range(i, min(i + chunk, len(cases))):
                        if halt.value:
                            break
                        w.send((k,) + _call(cases[k])[1:])
                rc = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(rc)
        w.close()
        pipes.append(r)
        pids.append(pid)
    live = list(pipes)
    while live:
        for q in multiprocessing.connection.wait(live):
            try:
                k, res, exc = q.recv()
            except EOFError:
                live.remove(q)
                continue
            yield cases[k], res, exc
            if stop():
                halt.value = 1
    bad = 0
    for pid in pids:
        bad += os.waitpid(pid, 0)[1] != 0
    if bad:
        raise RuntimeError("%d workers died" % bad)


def _again(fn, case, base, unpriv=False):
    for _ in range(2):
        for case, r, exc in _workers(fn, [case], base, 1, unpriv, lambda: False, 62000):
            if exc:
                raise RuntimeError("check failed on %r\n%s" % (case, exc))
            if not r["bad"]:
                return None
    return r["bad"]


def replay(fn, a, unpriv=False):
    d = scratch("replay")
    os.chmod(d, 0o711)
    case = tup(a["case"])
    r = _again(fn, case, d, unpriv)
    shutil.rmtree(d, ignore_errors=True)
    for m in r or []:
        print(m)
    return 1 if r else 0


def tup(v):
    return tuple(tup(x) for x in v) if isinstance(v, (list, tuple)) else v


def fresh(d):
    """An empty directory below the worker's scratch."""
    p = os.path.join(d, "t")
    if os.path.lexists(p):
        subprocess.run(["chmod", "-R", "u+rwx", p], stderr=subprocess.DEVNULL) if os.getuid() else None
        shutil.rmtree(p)
    os.makedirs(p)
    return p
