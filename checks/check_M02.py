"""Where and how everything is built: every combination of settings that differ from the defaults in up to two (three) places, against a reference of blogcfile(5) and blogc-make(1)."""
import itertools, os, re
import mk, procs, vrun
from check_M07 import text

RULE = "all configurations that differ from a small site with default settings in up to 2 (thorough 3, quick also 3 of those that name outputs) of %d places; in each the set of outputs, and for every output the program's sources, variables, template, order, page and tag (recorded calls) compared with a reference; up to 1 place (thorough 2): the outputs of the real blogc with the content it gives when called according to the reference, each rule alone, and the addresses in the default feeds"
# (what is changed, to what)
DEV = [
    ("content_dir", "c"), ("content_dir", "src/x"), ("template_dir", "t"), ("template_dir", "a/t"), ("main_template", "m.html"), ("main_template", "s/m.html"), ("atom_template", "atom.tmpl"),
    ("source_ext", ".md"), ("source_ext", "/index.txt"), ("source_ext", "-x"), ("listing_entry", "intro"), ("listing_entry", "about"),
    ("posts_sort", "1"), ("posts_sort", "yes"), ("posts_sort", "false"),
    ("pagination_prefix", ""), ("pagination_prefix", "pg/x"), ("posts_per_page", "1"), ("posts_per_page", "2"), ("posts_per_page", "3"), ("posts_per_page", "0"), ("posts_per_page", "-1"),
    ("atom_posts_per_page", "1"), ("atom_posts_per_page", "2"), ("atom_posts_per_page", "0"), ("atom_posts_per_page", "-1"),
    ("html_ext", ".html"), ("html_ext", "/i.htm"), ("index_prefix", "idx"), ("index_prefix", "a/b"), ("post_prefix", ""), ("post_prefix", "p/q"), ("tag_prefix", ""), ("tag_prefix", "t/u"),
    ("html_order", "ASC"), ("html_order", "asc"), ("html_order", "none"), ("blog_prefix", "blog"), ("blog_prefix", "b/c"), ("blog_prefix", "50%d"), ("blog_prefix", ""), ("atom_prefix", ""), ("atom_prefix", "f/g"), ("atom_ext", ".atom"), ("atom_ext", "/feed.xml"), ("atom_ext", ""),
    ("atom_order", "ASC"), ("date_format", "%Y"), ("date_format", ""), ("locale", "C.UTF-8"), ("run_from_make", "0"),
    ("posts", []), ("posts", ["p1"]), ("posts", ["p1", "p2", "p3", "p4", "p5"]), ("posts", ["index", "p1"]), ("posts", ["y/a", "p1"]), ("posts", ["p2", "p1", "p3"]),
    ("pages", []), ("pages", ["index", "about"]), ("pages", ["d/index", "x y"]), ("tags", []), ("tags", ["ta"]), ("tags", ["none"]), ("tags", ["tb", "index", "ta"]), ("copy", []), ("copy", ["one.txt"]), ("copy", ["static/d", "one.txt"]), ("copy", ["./static"]),
    ("posttags", "all"), ("posttags", "no"), ("dev", True), ("out", "o"), ("out", "o/p/"), ("out", "/abs"), ("globals", {"BASE_URL": "/u"}), ("globals", {"EXTRA": "it's $x", "A1_": ""}),
]


def conf(devs):
    st, gl, k = {}, dict(mk.GLOBALS), {"pages": ["about", "sub/page"]}
    for i in devs:
        n, v = DEV[i]
        if n in mk.DEFAULTS:
            st[n] = v
        elif n == "globals":
            gl.update(v)
        else:
            k[n] = v
    pt = k.pop("posttags", None)
    c = mk.Conf(st, gl, **k)
    if pt:
        c.posttags = {p: list(c.tags) if pt == "all" else [] for p in c.posts}
    return c


def possible(c):
    """Settings that blogcfile(5) gives a meaning, and names that files can have"""
    for p, w in c.want():
        b = p.split("/")[-1]
        if not b or b in (".", ".."):
            return False
    if not c.s["atom_prefix"] and not c.s["atom_ext"]:   # no name at all
        return False
    srcs = c.posts_src() + c.pages_src()
    return len(set(srcs)) == len(srcs) and not c.clash()


def outdir(c, d, root):
    return root + "/_build" if c.out is None else d + c.out if c.out[0] == "/" else os.path.normpath(root + "/" + c.out)


def files(b):
    return {k: v[1] for k, v in procs.tree(b).items() if v[0] != "d"} if os.path.isdir(b) else {}


def wanted(c):
    return {os.path.normpath(p): w for p, w in c.want()}


def show(want, got):
    for k in sorted(set(want) | set(got)):
        if want.get(k) != got.get(k):
            f = lambda v: "nothing" if v is None else text(("f", v))[:400]
            return "%s is\n      %s, should be\n      %s" % (k, f(got.get(k)), f(want.get(k)))


def build(c, d, root, args, **e):
    if c.out is not None:
        e["OUTPUT_DIR"] = d + c.out if c.out[0] == "/" else c.out
    return mk.make(root, (["-D"] if c.dev else []) + list(args), **e)


def temporary():
    """The temporary files of this worker's user"""
    res = set()
    for p in os.scandir("/tmp"):
        try:
            if p.is_file(follow_symlinks=False) and os.getuid() and p.stat(follow_symlinks=False).st_uid == os.getuid():
                res.add(p.name)
        except OSError:   # somebody else's that is gone
            pass
    return res


def run(case, d):
    before = temporary()
    res = run_case(case, d)
    if temporary() - before:
        res["bad"].append("%r: temporary files are left: %r" % (case, sorted(temporary() - before)[:4]))
    return res


def run_case(case, d):
    kind, devs = case
    d = procs.fresh(d)
    c = conf(devs)
    root = os.path.join(d, "site")
    bad, known, what = [], [], " and ".join("%s = %r" % DEV[i] for i in devs) or "defaults"
    if not possible(c):
        return {"bad": [], "outcome": "names clash", "tally": {"names clash": 1}}
    procs.plant(root, c.tree())
    b = outdir(c, d, root)
    want = wanted(c)
    if kind == "calls":
        r = build(c, d, root, [], BLOGC=mk.BIN["rec"])
        got = files(b)
        w = {k: x["content"] if x["rule"] == "copy" else mk.record(c, x, root) for k, x in want.items()}
        if r.rc:
            bad.append("%s: %r" % (what, r))
        elif got != w:
            bad.append("%s: %s" % (what, show(w, got)))
        now = {k: v for k, v in procs.tree(root).items() if v[0] == "f" and not (root + "/" + k).startswith(b + "/")}
        src = {k: ("f", v if isinstance(v, bytes) else v.encode()) for k, v in c.tree().items()}
        if now != src:
            bad.append("%s: files outside the output directory: %s" % (what, procs.diff(src, now)))
        return {"bad": bad, "state": tuple(sorted(want)), "outcome": hash(repr(sorted(got.items()))), "steps": len(want), "tally": {"built": len(got)}}
    # the real blogc, one rule after the other
    atom = {k: x for k, x in want.items() if x["rule"] in ("atom", "atom_tags")}
    order = []
    for rule in ("pages", "copy", "posts", "tags", "pagination_tags", "pagination", "index", "atom_tags", "atom"):
        before = files(b)
        r = build(c, d, root, [rule])
        new = {k: v for k, v in files(b).items() if k not in before}
        w = {k for k, x in want.items() if x["rule"] == rule}
        if r.rc or set(new) != w:
            bad.append("%s: rule %s gives %r, should give %r: %r" % (what, rule, sorted(new)[:9], sorted(w)[:9], r))
    got = files(b)
    for k, x in want.items():
        if x["rule"] == "copy":
            ref = x["content"]
        elif x["template"] is None:
            feed(c, k, x, got.get(k, b"").decode(), "%s: %s" % (what, k), bad, known)
            continue
        else:
            ref = mk.reference(c, root, x)
        if got.get(k) != ref:
            bad.append("%s: %s is %.300r, should be %.300r" % (what, k, got.get(k), ref))
    if c.s["atom_template"] is None and atom:   # the template can be dumped, and gives the same feeds
        r = build(c, d, root, ["atom_dump"])
        p = c.s["template_dir"] + "/dumped"
        procs.plant(root, {p: r.out})
        for k, x in atom.items():
            if mk.reference(c, root, dict(x, template=p)) != got.get(k):
                bad.append("%s: the dumped template gives another %s: %r" % (what, k, r))
    return {"bad": bad, "state": tuple(sorted(want)), "known": known, "outcome": hash(repr(sorted(got.items()))), "steps": len(want), "tally": {"real": len(got)}}


def swaps(s, a, b):
    """s with one occurrence of a replaced"""
    return [s[:i] + b + s[i + len(a):] for i in range(len(s)) if s.startswith(a, i)]


def feed(c, k, x, t, what, bad, known):
    """The default feed: addresses are those of the outputs"""
    import xml.etree.ElementTree as E
    g = c.globals
    base = g["BASE_DOMAIN"] + g.get("BASE_URL", "")
    try:
        f = E.fromstring(t)
    except E.ParseError as e:
        bad.append("%s: no XML: %s in %r" % (what, e, t[:200]))
        return
    ns = "{http://www.w3.org/2005/Atom}"
    tag = x["D"].get("FILTER_TAG")
    idx = [i for i in range(len(c.posts)) if tag is None or tag in c.meta(i)[1]]
    if mk.truth(c.s["posts_sort"]):
        idx.sort(key=lambda i: c.meta(i)[0], reverse=True)
    if "FILTER_REVERSE" in x["D"]:
        idx = idx[::-1]
    n = mk.num(c.s["atom_posts_per_page"])
    if n > 0:
        idx = idx[:n]
    slugs = {c.posts[i]: c.posts_src()[i] for i in idx}
    outs = {w["sources"][0]: p for p, w in c.want() if w["rule"] == "posts"}
    date = lambda i: c.meta(i)[0].replace(" ", "T") + "Z"
    want = [("title", "Post " + c.posts[i], base + "/" + outs[c.posts_src()[i]], base + "/" + outs[c.posts_src()[i]], date(i), date(i), g["AUTHOR_NAME"], g["AUTHOR_EMAIL"], "<p>The <em>text</em> of %s.</p>\n" % c.posts[i].replace("/", "&#x2F;")) for i in idx]
    got = [("title", e.findtext(ns + "title"), e.findtext(ns + "id"), e.find(ns + "link").get("href"), e.findtext(ns + "updated"), e.findtext(ns + "published"), e.findtext(ns + "author/" + ns + "name"), e.findtext(ns + "author/" + ns + "email"), e.findtext(ns + "content")) for e in f.findall(ns + "entry")]
    # FILENAME as blogc-source(7) has it: the name of the source file without its extension
    filename = {s: os.path.basename(p).rsplit(".", 1)[0] for s, p in zip(c.posts, c.posts_src())}
    if got != want:
        for a, b in itertools.zip_longest(got, want):
            if a != b:
                if a and b and a[:2] + a[4:] == b[:2] + b[4:] and a[2] == a[3] and a[2] in swaps(b[2], "/" + a[1][5:], "/" + filename[a[1][5:]]):
                    known.append(("feed-filename", "%s: entry %r, should be %r" % (what, a, b)))
                    continue
                bad.append("%s: entry %r, should be %r" % (what, a, b))
                break
    links = sorted((l.get("rel") or "", l.get("href")) for l in f.findall(ns + "link"))
    head = (f.findtext(ns + "title"), f.findtext(ns + "id"), links, f.findtext(ns + "subtitle"), f.findtext(ns + "updated"))
    w = (g["SITE_TITLE"] + (" - " + tag if tag else ""), base + "/" + k, sorted([("", base + "/"), ("self", base + "/" + k)]), g["SITE_TAGLINE"], date(idx[0]) if idx else head[4])
    if head != w:
        bad.append("%s: feed %r, should be %r" % (what, head, w))


def setup():
    mk.setup()


def combos(n):
    for k in range(n + 1):
        for c in itertools.combinations(range(len(DEV)), k):
            names = [DEV[i][0] for i in c]
            if len({(x if x != "globals" else i) for x, i in zip(names, c)}) == k:
                yield c


def main(tier):
    ck = vrun.Check("M02", tier)
    setup()
    th = tier == "thorough"
    cs = [("real", c) for c in combos(2 if th else 1)] + [("calls", c) for c in combos(3 if th else 2)]
    if not th:   # three places, of those that name outputs
        k = [i for i, (n, v) in enumerate(DEV) if n in ("html_ext", "atom_ext", "source_ext") or n.endswith("_prefix") or (n, v) in (("posts_per_page", "1"), ("posts_per_page", "-1"), ("atom_posts_per_page", "0"), ("listing_entry", "intro"), ("tags", ["tb", "index", "ta"]), ("posts", ["index", "p1"]), ("pages", ["index", "about"]))]
        cs += [("calls", c) for c in itertools.combinations(k, 3) if len({DEV[i][0] for i in c}) == 3]
    ex = procs.Explorer(ck, run, "M02", unpriv=True)
    ex.all(cs, "configurations")
    ex.close()
    return ck.finish(RULE % len(DEV), ["two outputs with the same path, or one below the other, are not judged: blogcfile(5) does not say which one wins", "what blogc does with its arguments is checked by B01 to B16"])


def replay(a):
    setup()
    return procs.replay(run, a, unpriv=True)
