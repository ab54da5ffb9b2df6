"""Histories of edits, deletions and builds of single rules: a build always ends with what a build from scratch gives."""
import hashlib, itertools, os, shutil
import mk, procs, vrun

RULE = "all sequences of up to 2 (thorough 3) steps from the site as built and from no outputs at all; a step is an edit of one of 16 kinds (posts, tags, page, entry, templates, copied files, settings, added and removed posts, tags, files), at a time one nanosecond or up to one second after everything else, the deletion of an output of one of 7 kinds or of all, or the build of one rule or all of them; the last build must give what a build from scratch gives, a further one rewrite nothing, and a rule must only write its own outputs"
RULES = ["index", "atom", "atom_tags", "pagination", "pagination_tags", "posts", "tags", "pages", "copy"]
T0 = 1500000000 * 10**9 + 600000000


class Site:
    """The sources, as a value that edits change"""

    def __init__(self, flavour):
        self.flavour = flavour
        self.set = {"posts_per_page": "1", "listing_entry": "intro"}
        if flavour:
            self.set.update(atom_template="atom.tmpl", posts_sort="1", html_ext=".html", blog_prefix="blog")
        self.glob = dict(mk.GLOBALS)
        self.posts, self.tags, self.pages, self.copy = ["p1", "p2"], ["ta"], ["about"], ["static", "one.txt"]
        self.posttags = {"p1": ["ta"], "p2": [], "p3": ["ta", "tb"]}
        self.files = {"static/a.css": b"body {}\n", "static/d/b.bin": b"\x00\xff" * 700, "one.txt": b"one\n"}
        self.extra = {}   # sources with another text

    def conf(self):
        c = mk.Conf(self.set, self.glob, self.posts, self.pages, self.tags, self.copy, posttags=self.posttags)
        c.files = dict(self.files)
        return c

    def tree(self):
        c = self.conf()
        t = c.tree()
        for k, v in self.extra.items():
            if k in t:
                t[k] = (t[k] if isinstance(t[k], str) else t[k].decode("latin-1")) + v
        return {k: v if isinstance(v, bytes) else v.encode() for k, v in t.items()}

    def src(self, slug):
        c = self.conf()
        return dict(zip(self.posts + self.pages, c.posts_src() + c.pages_src()))[slug]

    def edit(self, e):
        td = self.conf().s["template_dir"] + "/"
        more = lambda k: self.extra.__setitem__(k, self.extra.get(k, "") + "more\n")
        if e == "post1":
            more(self.src("p1"))
        elif e == "post2":
            if "p2" in self.posts:
                more(self.src("p2"))
        elif e == "retag":
            self.posttags = dict(self.posttags, p2=[] if self.posttags["p2"] else ["ta"])
        elif e == "page":
            more(self.src("about"))
        elif e == "entry":
            more(self.conf().entry_src())
        elif e == "main":
            more(td + "main.tmpl")
        elif e == "atom":
            if self.flavour:
                more(td + "atom.tmpl")
        elif e == "copied":
            self.files = dict(self.files, **{"static/d/b.bin": self.files["static/d/b.bin"] + b"x" if len(self.files["static/d/b.bin"]) % 3 else b"short"})
        elif e == "one":
            self.files = dict(self.files, **{"one.txt": self.files["one.txt"] + b"two\n"})
        elif e == "newfile":
            self.files = dict(self.files, **{"static/d/new": b"new\n"})
        elif e == "title":
            self.glob = dict(self.glob, SITE_TITLE=self.glob["SITE_TITLE"] + "!")
        elif e == "perpage":
            self.set = dict(self.set, posts_per_page="2" if self.set["posts_per_page"] == "1" else "1")
        elif e == "newpost":
            if "p3" not in self.posts:
                self.posts = self.posts + ["p3"]
        elif e == "rmpost":
            self.posts = self.posts[:1]
        elif e == "newtag":
            if "tb" not in self.tags:
                self.tags = self.tags + ["tb"]
        elif e == "order":
            self.set = dict(self.set, html_order="ASC", atom_order="ASC")


EDITS = ["post1", "post2", "retag", "page", "entry", "main", "atom", "copied", "one", "newfile", "title", "perpage", "newpost", "rmpost", "newtag", "order"]
DELS = ["del:index", "del:atom", "del:tags", "del:pagination", "del:posts", "del:pages", "del:copy", "del:*"]
CLEAN = {}


def key(t):
    return hashlib.sha1(repr(sorted(t.items())).encode()).hexdigest()


def clean(d, site, rule):
    t = site.tree()
    k = (key(t), rule)
    if k not in CLEAN:
        root = os.path.join(d, "clean")
        shutil.rmtree(root, ignore_errors=True)
        procs.plant(root, t)
        r = mk.make(root, [rule])
        if r.rc:
            raise vrun.Broken("build from scratch fails: %r" % r)
        CLEAN[k] = {p: v for p, v in procs.tree(root + "/_build").items() if v[0] != "d"} if os.path.isdir(root + "/_build") else {}
        shutil.rmtree(root)
    return CLEAN[k]


def stamp(root, ns):
    for d, ds, fs in os.walk(root):
        for f in fs:
            os.utime(os.path.join(d, f), ns=(ns, ns))


def newest(root):
    return max(os.stat(os.path.join(d, f)).st_mtime_ns for d, ds, fs in os.walk(root) for f in fs)


def past(root):
    """Moves everything to the past, so that edits are the newest files and still older than what builds write"""
    fs = [os.path.join(d, f) for d, ds, fs in os.walk(root) for f in fs]
    off = newest(root) - T0 if newest(root) > T0 + 10**15 else 0
    if off:
        off = off // 10**9 * 10**9   # whole seconds
        for f in fs:
            t = os.stat(f).st_mtime_ns
            if t > T0 + 10**15:
                os.utime(f, ns=(t - off, t - off))


def write(root, old, new, how):
    """Applies an edit: changed files are newer than everything"""
    n = newest(root)
    t = n + 1 if how == "ns" else (n // 10**9 + 1) * 10**9
    for p in old:
        if p not in new:
            os.unlink(os.path.join(root, p))
    for p in new:
        if old.get(p) != new[p]:
            procs.plant(root, {p: new[p]})
            os.utime(os.path.join(root, p), ns=(t, t))


def run(case, d):
    """case: (flavour, start, steps, how)"""
    flavour, start, steps, how = case
    d = procs.fresh(d)
    s = Site(flavour)
    root = os.path.join(d, "site")
    procs.plant(root, s.tree())
    stamp(root, T0)
    b = root + "/_build"
    bad, n, what = [], 0, "%s: %s" % (start, " ".join(steps))

    def build(rule):
        before = procs.tree(b, times=True) if os.path.isdir(b) else {}
        r = mk.make(root, [rule])
        after = procs.tree(b, times=True) if os.path.isdir(b) else {}
        files = {p: v[:2] for p, v in after.items() if v[0] != "d"}
        want = clean(d, s, rule)
        if r.rc:
            bad.append("%s: %s fails: %r" % (what, rule, r))
        diff = [p for p in want if files.get(p) != want[p]]
        if diff:
            p = diff[0]
            bad.append("%s: after %s %s is %.150r, should be %.150r" % (what, rule, p, files.get(p), want[p]))
        foreign = [p for p in set(before) | set(after) if before.get(p) != after.get(p) and p not in want and (before.get(p) or after.get(p))[0] != "d"]
        if foreign:
            bad.append("%s: %s wrote or removed %s, which is not its output" % (what, rule, foreign[:3]))
        return r, after

    if start == "built":
        build("all")
        past(root)
    outs = []
    for x in steps:
        if bad:
            break
        n += 1
        if x.startswith("del:"):
            rule = x[4:]
            if rule == "*":
                shutil.rmtree(b, ignore_errors=True)
            else:
                for p in sorted(clean(d, s, rule))[:1]:
                    if os.path.exists(b + "/" + p):
                        os.unlink(b + "/" + p)
        elif x in EDITS:
            old = s.tree()
            s.edit(x)
            write(root, old, s.tree(), how)
        else:
            r, t = build(x)
            outs.append(sorted(t))
            past(root)
    if not bad:
        r, t = build("all")
        outs.append(sorted(t))
        ino = lambda: {os.path.relpath(os.path.join(q, f), b): (os.stat(os.path.join(q, f)).st_ino, os.stat(os.path.join(q, f)).st_mtime_ns, os.stat(os.path.join(q, f)).st_ctime_ns) for q, ds, fs in os.walk(b) for f in fs}
        if not bad:
            i = ino()
            r = mk.make(root)
            if r.rc or ino() != i:
                bad.append("%s: a build with nothing changed rewrites %s: %r" % (what, sorted(k for k in set(i) | set(ino()) if i.get(k) != ino().get(k))[:4], r))
    now = {p: v[1] for p, v in procs.tree(root).items() if v[0] == "f" and not p.startswith("_build/")}
    if now != s.tree():
        bad.append("%s: the sources changed: %s" % (what, procs.diff(s.tree(), now)))
    return {"bad": bad, "state": (key(s.tree()), start, repr(outs)), "outcome": repr(outs[-1:]), "steps": n}


def setup():
    mk.setup()


def useless(steps):
    """Histories that are the same as shorter ones"""
    return any(a == b and a not in EDITS for a, b in zip(steps, steps[1:]))


def main(tier):
    ck = vrun.Check("M01", tier)
    setup()
    th = tier == "thorough"
    al = EDITS + DELS + RULES + ["all"]
    cs = []
    for flavour in (0, 1):
        for start in ("built", "none"):
            for n in (0, 1, 2):
                for st in itertools.product(al, repeat=n):
                    if useless(st) or start == "none" and st and st[0].startswith("del:"):
                        continue
                    for how in ("ns", "s"):
                        if th or (how == "ns") == (flavour == 0) or n < 2:
                            cs.append((flavour, start, st, how))
    if not th:   # two builds of single rules around an edit
        cs += [(1, "built", (e, r, f), "ns") for e in EDITS for r in ["index", "posts", "atom"] for f in ("post1", "main", "title")]
    else:
        cs += [(f, "built", st, how) for st in itertools.product(EDITS, RULES, EDITS + DELS) for f, how in ((0, "s"), (1, "ns"))]
        cs += [(0, "built", st, "ns") for st in itertools.product(EDITS + DELS, repeat=3) if not useless(st)][::1]
    ex = procs.Explorer(ck, run, "M01", unpriv=True)
    ex.all(cs, "histories")
    ex.close()
    return ck.finish(RULE, ["modification times are set by the harness: every edit is newer than all files, as the property assumes", "outputs of posts, pages, tags and copies that the configuration does not list any more are not expected to go away"])


def replay(a):
    setup()
    return procs.replay(run, a, unpriv=True)
