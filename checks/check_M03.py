"""The clean rule: every set of foreign files beside the outputs, for every kind of site, after every short history."""
import itertools, os, shutil
import mk, procs, vrun

RULE = "all sets of up to 2 (thorough: all sets) of 11 foreign files, links and directories in the output directory, all 14 kinds of site and output directory, and 10 histories (never built, built, single rules, changed settings, missing outputs, outputs replaced by links, missing sources); clean must remove exactly the outputs of the current settings and what is left empty above them inside the output directory, and be repeatable"
FOREIGN = {
    "index.html.bak": b"1", "post/p1/mine": b"2", "post/foreign/index.html": b"3", "tag/.hidden": b"4", "atom/x.xml": b"", "static/mine.css": b"6", "static/d/..x": b"7",
    "new/a/b/c": b"8", "page/9/index.html": b"9", "alink": ("l", "../content"), "post/p2/link": ("l", "/nonexistent"),
}
SITES = {
    "default": {}, "html": {"html_ext": ".html"}, "blog": {"blog_prefix": "blog", "posts_per_page": "1"}, "flat": {"post_prefix": "", "tag_prefix": "t", "atom_prefix": "", "pagination_prefix": ""},
    "deep": {"post_prefix": "a/b/c", "index_prefix": "x/y", "atom_ext": "/feed.xml"}, "twice": {"copy": ["static", "static/d/b.bin", "one.txt", "one.txt"], "tags": ["ta", "ta"]}, "few": {"posts": [], "tags": [], "copy": []},
    "nofeed": {"atom_posts_per_page": "0", "posts_per_page": "-1"}, "outrel": {"out": "o/p"}, "outslash": {"out": "o/p/"}, "outabs": {"out": "/up/abs"}, "outabsslash": {"out": "/up/abs//"}, "outdots": {"out": "./o/../o/x"}, "outlink": {"out": "linked"},
}
HISTORY = ["none", "all", "posts", "copy+index", "lessposts", "pagesize", "ext", "missing", "links", "nosource"]


def conf(name, **more):
    st, k = {}, {"pages": ["about", "sub/page"]}
    for n, v in dict(SITES[name], **more).items():
        if n in mk.DEFAULTS:
            st[n] = v
        else:
            k[n] = v
    c = mk.Conf(st, **k)
    c.files = {p: v for p, v in c.files.items() if len(v) < 3000}
    return c


def run(case, d):
    name, hist, foreign = case
    d = procs.fresh(d)
    c = conf(name)
    root = os.path.join(d, "site")
    bad, what = [], "%s, %s, with %s" % (name, hist, " ".join(foreign) or "nothing else")
    procs.plant(root, c.tree())
    e = {"BLOGC": mk.BIN["rec"]}
    b = root + "/_build"
    if c.out is not None:
        e["OUTPUT_DIR"] = d + c.out if c.out[0] == "/" else c.out
        b = os.path.normpath(d + c.out if c.out[0] == "/" else root + "/" + c.out)
        up = os.path.dirname(b)
        os.makedirs(up, exist_ok=True)   # empty but for the output directory
    if name == "outlink":
        os.makedirs(d + "/target")
        os.symlink("../target", b)

    def make(*rules):
        r = mk.make(root, rules, **e)
        if r.rc:
            raise vrun.Broken("%s: plain build fails: %r" % (what, r))

    if hist in ("posts",):
        make("posts")
    elif hist == "copy+index":
        make("copy", "index")
    elif hist not in ("none",):
        make()
    if hist == "lessposts":
        c = conf(name, posts=c.posts[:1], pages=["about"], tags=c.tags[:1])
    elif hist == "pagesize":
        c = conf(name, posts_per_page="2", atom_posts_per_page="0")
    elif hist == "ext":
        c = conf(name, html_ext=".htm", atom_prefix="feed")
    if hist in ("lessposts", "pagesize", "ext"):
        procs.plant(root, {"blogcfile": c.text()})
    outs = sorted({os.path.normpath(p) for p, w in c.want()})
    base = os.path.realpath(b)
    if hist == "missing":
        for p in outs[::2]:
            if os.path.exists(base + "/" + p):
                os.unlink(base + "/" + p)
    elif hist == "links":
        for i, p in enumerate(outs):
            f = base + "/" + p
            if os.path.exists(f) and i % 2:
                os.unlink(f)
                os.symlink(root + "/content/about.txt" if i % 4 == 1 else root + "/blogcfile", f)
    elif hist == "nosource":
        os.unlink(root + "/content/about.txt")
        if c.copy:
            os.unlink(root + "/one.txt")
    t = {}
    for f in foreign:
        if f not in outs and not any(o.startswith(f + "/") or f.startswith(o + "/") for o in outs):
            t[f] = FOREIGN[f]
    if t:
        procs.plant(base, t)
    before = procs.tree(d)
    rel = os.path.relpath(base, d)
    gone = {rel + "/" + p for p in outs} & set(before)
    if hist == "nosource" and "one.txt" in outs:
        # its source is gone, and with it the only way to know it from a foreign file
        gone.discard(rel + "/one.txt")
    want = {k: v for k, v in before.items() if k not in gone}
    for k in sorted({os.path.dirname(g) for g in gone}, key=len, reverse=True):
        while k.startswith(rel + "/") or k == rel:
            if k in want and not any(x.startswith(k + "/") for x in want):
                if k == rel and name == "outlink":
                    break
                del want[k]
            k = os.path.dirname(k)
    r = mk.make(root, ["clean"], **e)
    after = procs.tree(d)
    if r.rc:
        bad.append("%s: clean fails: %r" % (what, r))
    elif after != want:
        bad.append("%s: after clean %s" % (what, procs.diff(want, after)))
    left = any(k.startswith(rel + "/") for k in want)
    if not bad and (b"not empty" in r.err) != left:
        bad.append("%s: warning %r, left: %s" % (what, r.err, left))
    if not bad:
        r = mk.make(root, ["clean"], **e)
        if r.rc or procs.tree(d) != want:
            bad.append("%s: a second clean: %r %s" % (what, r, procs.diff(want, procs.tree(d))))
    if not bad and hist != "nosource" and len(foreign) < 2:
        r = mk.make(root, [], **e)
        got = procs.tree(base)
        miss = [p for p in outs if got.get(p, ("",))[0] != "f"]
        lost = [k for k, v in want.items() if procs.tree(d).get(k) != v]
        if r.rc or miss or lost:
            bad.append("%s: the build after clean: %r, not built %r, changed %r" % (what, r, miss[:4], lost[:4]))
    return {"bad": bad, "state": (name, hist, tuple(sorted(t))), "outcome": repr(sorted(want)).replace(d, ""), "steps": len(gone), "tally": {"removed": len(gone), "kept": len(want)}}


def setup():
    mk.setup()


def main(tier):
    ck = vrun.Check("M03", tier)
    setup()
    th = tier == "thorough"
    sets = [s for n in range(len(FOREIGN) + 1 if th else 3) for s in itertools.combinations(FOREIGN, n)]
    if not th:
        sets.append(tuple(FOREIGN))
    few = [s for s in sets if len(s) < 2 or len(s) == len(FOREIGN)]
    cs = [(n, h, s) for n in SITES for h in HISTORY for s in (sets if h == "all" or th and n in ("default", "blog", "outslash") or n == "default" else few)]
    ex = procs.Explorer(ck, run, "M03", unpriv=True)
    ex.all(cs, "sites")
    ex.close()
    return ck.finish(RULE, ["empty foreign directories that hold no output are not judged", "outputs that the current settings do not name are foreign files"])


def replay(a):
    setup()
    return procs.replay(run, a, unpriv=True)
