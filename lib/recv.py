"""blogc-git-receiver in a scratch home directory, with stand-ins (shim/stub.c) for the programs it runs."""
import io, os, posixpath, shutil, tarfile, tempfile
import procs, vrun

BIN = {}
EPOCH = 1700000000


def setup():
    BIN.update(vrun.binaries("plain", ("blogc-git-receiver",)))
    BIN["stub"] = vrun.tool("stub")
    BIN["clk"] = vrun.shim("clk")
    procs.fi()


class Box:
    """d/home (HOME), d/bin (PATH), d/stub (what the stand-ins do and saw)."""

    def __init__(self, d, base="home", progs=("git", "git-shell", "make", "gmake", "blogc-make", "x", "touch")):
        self.d = procs.fresh(d)
        self.home = os.path.join(self.d, base)
        self.stub = os.path.join(self.d, "stub")
        self.bin = os.path.join(self.d, "bin")
        for p in (self.home, self.bin, self.stub + "/tars", self.stub + "/config"):
            os.makedirs(p)
        for p in progs:
            os.symlink(BIN["stub"], os.path.join(self.bin, p))
        os.symlink(shutil.which("tar"), os.path.join(self.bin, "tar"))
        for p in ("rm", "mv", "cp", "ln", "mkdir", "cat", "test", "true", "false", "sh"):   # a rewrite may use them
            os.symlink(shutil.which(p), os.path.join(self.bin, p))
        self.self = BIN["blogc-git-receiver"]
        self.env = {"PATH": self.bin, "HOME": self.home, "STUB_DIR": self.stub, "SHELL": self.self, "LC_ALL": "C", "TZ": "UTC",
                    "LD_PRELOAD": BIN["clk"], "FAKE_EPOCH": str(EPOCH), "BLOGC": ""}

    def fail(self, *what):
        f = os.path.join(self.stub, "fail")
        if what:
            open(f, "w").write("\n".join(what))
        elif os.path.exists(f):
            os.unlink(f)

    def calls(self, clear=True):
        """[(program, working directory, [arguments])] since the last call"""
        f = os.path.join(self.stub, "log")
        r = []
        if os.path.exists(f):
            for line in open(f, errors="surrogateescape"):
                x = line.rstrip("\n").split("\t")
                if len(x) >= 2:
                    r.append((x[0], x[1], [bytes.fromhex(a).decode("utf-8", "surrogateescape") if a != "-" else "" for a in x[2:]]))
            if clear:
                os.unlink(f)
        return r

    def run(self, argv, exe=None, env=None, unset=(), stdin=b"", cwd=None, fi=None, timeout=30):
        e = dict(self.env)
        e.update(env or {})
        for k in unset:
            e.pop(k, None)
        if fi is not None:
            fi = dict(fi)
            cmd = procs.with_fi([exe or argv[0]] + list(argv[1:]), fi.pop("dirs", [self.home, "/tmp"]), **fi)
            exe = None
        else:
            cmd = list(argv)
        saved, procs.ENV = procs.ENV, {}
        try:
            return procs.run(cmd, cwd=cwd or self.home, env=e, stdin=stdin, timeout=timeout, **({"executable": exe} if exe else {}))
        finally:
            procs.ENV = saved


def tar(files):
    """A tar archive like git's: {path: text | ('l', target) | None}"""
    b = io.BytesIO()
    t = tarfile.open(fileobj=b, mode="w", format=tarfile.USTAR_FORMAT)
    dirs = set()
    for p in sorted(files):
        parts = p.split("/")
        for i in range(1, len(parts)):
            q = "/".join(parts[:i])
            if q not in dirs:
                dirs.add(q)
                ti = tarfile.TarInfo(q)
                ti.type, ti.mode, ti.mtime = tarfile.DIRTYPE, 0o775, EPOCH - 1000
                t.addfile(ti)
        v = files[p]
        ti = tarfile.TarInfo(p)
        ti.mode, ti.mtime = 0o664, EPOCH - 1000
        if isinstance(v, tuple):
            ti.type, ti.linkname = tarfile.SYMTYPE, v[1]
            t.addfile(ti)
        else:
            v = v.encode() if isinstance(v, str) else v
            ti.size = len(v)
            t.addfile(ti, io.BytesIO(v))
    t.close()
    return b.getvalue()


def tmp_left():
    """What this user has left behind in /tmp."""
    r = []
    for n in os.listdir("/tmp"):
        p = os.path.join("/tmp", n)
        try:
            if os.lstat(p).st_uid == os.getuid() and os.getuid() != 0:
                r.append(p)
        except OSError:
            pass
    return r


def tmp_clean():
    for p in tmp_left():
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p, ignore_errors=True)
        else:
            os.unlink(p)


def norm(p):
    return posixpath.normpath(p)


# ------------------------------------------------------------------------------------------------ deployments
ZERO = "0" * 40
COMMITS = {}


def commit(name, how="ok", kind="Makefile", extra=None):
    """A commit: its identifier, the archive git would give, and the site it builds."""
    h = "%040x" % (int.from_bytes(name.encode(), "big") * 0x9e3779b97f4a7c15 % (1 << 160) | 1 << 156)
    files = {kind: how + "\n", "content/index.html": "page of " + name + "\n", "content/d/e/x.txt": "x" * 3000 + name, "content/z.bin": bytes(range(256)) * 30 + name.encode(), "src/readme": "s" * 9000}
    files.update(extra or {})
    site = {}
    for p, v in files.items():
        if p.startswith("content/"):
            q = p[8:]
            site[q] = ("l", v[1]) if isinstance(v, tuple) else ("f", v.encode() if isinstance(v, str) else v)
            while "/" in q:
                q = q.rsplit("/", 1)[0]
                site[q] = ("d",)
    COMMITS[name] = {"id": h, "tar": tar(files), "site": site, "how": how, "kind": kind}
    return COMMITS[name]


class Site(Box):
    """A repository with the pre-receive hook."""

    def __init__(self, d, base="home", repos=("site.git",), ini=None, builds=None):
        Box.__init__(self, d, base)
        for r in repos:
            procs.plant(os.path.join(self.home, "repos", r), {"HEAD": "x\n", "objects": None, "hooks/pre-receive": ("l", self.self), "hooks/post-receive": ("l", self.self)})
        self.builds = os.path.join(self.home, "builds")
        if builds:
            self.builds = os.path.join(self.d, builds)
            self.env["BLOGC_GIT_RECEIVER_BUILDS_DIR"] = self.builds
        if ini:
            open(os.path.join(self.home, "blogc-git-receiver.ini"), "w").write(ini.replace("@", self.d))
        self.link = {r: os.path.join(self.home, "repos", r, "htdocs") for r in repos}
        for c in COMMITS.values():
            open(os.path.join(self.stub, "tars", c["id"]), "wb").write(c["tar"])

    def push(self, lines, repo="site.git", **kw):
        """lines: [(old, new, ref)]"""
        e = dict(kw.pop("env", {}))
        e["GIT_DIR"] = "."
        si = "".join("%s %s %s\n" % l for l in lines).encode()
        return self.run(["./hooks/pre-receive"], exe=kw.pop("exe", None), cwd=os.path.join(self.home, "repos", repo), stdin=si, env=e, **kw)

    def deploy(self, name, repo="site.git", branch="master", **kw):
        return self.push([(ZERO, COMMITS[name]["id"], "refs/heads/" + branch)], repo, **kw)

    def rebuild(self, repo="site.git", **kw):
        return self.run(["./hooks/pre-receive"], cwd=os.path.join(self.home, "repos", repo), **kw)

    def live(self, repo="site.git"):
        """The tree the live link leads to, or None"""
        p = self.link[repo]
        if not os.path.isdir(p):
            return None
        return procs.tree(os.path.realpath(p))

    def live_dir(self, repo="site.git"):
        p = self.link[repo]
        return os.path.realpath(p) if os.path.isdir(p) else None

    def is_site(self, tree):
        """The name of the commit that this tree is the site of"""
        for n, c in COMMITS.items():
            if c["site"] == tree:
                return n
        return None

    def built(self):
        return sorted(os.listdir(self.builds)) if os.path.isdir(self.builds) else []
