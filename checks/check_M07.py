"""What configuration text becomes on the command line: every short word over the shell's alphabet at every place, with a recording stand-in for blogc."""
import itertools, os
import mk, procs, vrun

RULE = "all words of up to 2 (thorough 3) characters over 23 shell-significant characters and 30 commands in shell syntax, at 34 places (every setting, globals, tags, posts, pages, files, directories, the locale, OUTPUT_DIR, the paths of the site and of the programs, the arguments of runserver); the recorded calls compared with a reference, and the whole tree with what may be created; keys of globals that are no names refused"
ALPHA = "'\"\\$`;&|<>()*?[]{}~!# %-=\n^a"
PAY = ["$(touch pwned)", "`touch pwned`", "';touch pwned;'", "'$(touch pwned)'", "\";touch pwned;\"", "\\';touch pwned;\\'", "'\\'';touch pwned;#", "a b", " a", "a ", "a  b", "$HOME", "${HOME}", "$$", "$0", "\\\\", "\\'", "'\\''", "!!", "a!b", "'!'", "%s", "%n%s%d", "%%", "&& touch pwned", "| touch pwned", "> pwned", "\ttab", "é", "{a,b}"]
VALUE = ["global", "global2", "date_format", "locale", "tag", "tags2", "posts_per_page", "atom_posts_per_page", "posts_sort", "html_order"]
NAMES = ["post", "post2", "page", "listing_entry", "content_dir", "template_dir", "main_template", "atom_template", "source_ext", "html_ext", "index_prefix", "post_prefix", "tag_prefix", "blog_prefix", "pagination_prefix", "atom_prefix", "atom_ext", "copy", "root", "out", "out2", "blogc", "argv0"]
SERVER = ["host", "port", "threads", "srvout"]
SERVED = 0.1


def conf(place, w):
    k = dict(posts=["p1"], pages=["about"], tags=["ta"], copy=["one.txt"])
    st, gl, out = {}, dict(mk.GLOBALS), None
    if place == "global":
        gl["SITE_TITLE"] = "x" + w
    elif place == "global2":
        gl["EXTRA"] = w
    elif place == "tag":
        k["tags"] = [w]
    elif place == "tags2":
        k["tags"] = ["ta", "b" + w, "c"]
    elif place == "post":
        k["posts"] = [w]
    elif place == "post2":
        k["posts"] = ["p1", "a" + w + "b"]
    elif place == "page":
        k["pages"] = [w]
    elif place in ("posts_per_page", "atom_posts_per_page"):
        st[place] = "2" + w
    elif place in ("source_ext", "html_ext", "atom_ext"):
        st[place] = "." + w
    elif place == "copy":
        k["copy"] = [w]
    elif place in mk.DEFAULTS:
        st[place] = w
    elif place == "out":
        out = w
    c = mk.Conf(st, gl, out=out, **k)
    if place == "copy":
        c.files[w] = b"copied " + w.encode()
    return c


def possible(place, w):
    if place in ("global", "date_format", "locale", "global2", "html_order", "posts_sort"):
        return place != "locale" or w
    if place in ("posts_per_page", "atom_posts_per_page"):
        return not w[:1].isdigit()
    if place in ("tag", "tags2"):
        return "/" not in w and "\n" not in w and w not in (".", "..", "")
    if place in SERVER:
        return "," not in w and (place != "srvout" or "/" not in w and "\\" not in w)
    if "/" in w or w in (".", "..") or "\n" in w:   # no file can be called so, or not in a list of lines
        return False
    if place == "source_ext" and w != w.rstrip():   # blogc ignores blanks around the names it reads from standard input
        return False
    if place in ("content_dir", "template_dir") and not w:
        return False
    if place in ("copy", "root", "out", "out2", "blogc", "argv0") and (not w or "\\" in w):   # a backslash separates directories
        return False
    if place in ("post", "page", "listing_entry", "main_template", "atom_template", "blog_prefix") and not w:
        return False
    return True


def run(case, d):
    place, w = case
    t = procs.fresh(d)
    bad = []
    root = os.path.join(t, w if place == "root" else "site")
    if place in SERVER:
        return serve(place, w, root)
    if place == "key":
        c = mk.Conf((), dict(mk.GLOBALS, **{"A" + w: "v"}), posts=["p1"], pages=[], tags=[], copy=[])
        procs.plant(root, c.tree())
        r = mk.make(root, BLOGC=mk.BIN["rec"])
        ok = all(x.isupper() and x.isascii() or x.isdigit() or x == "_" for x in w)
        if (r.rc == 0) != ok or not ok and os.path.exists(root + "/_build"):
            bad.append("global variable %r: %r" % ("A" + w, r))
        return {"bad": bad, "state": (place, w), "outcome": r.rc}
    c = conf(place, w)
    if c.clash():
        return {"bad": [], "state": (place, w), "outcome": "names clash", "tally": {"names clash": 1}}
    procs.plant(root, c.tree())
    out = root + "/_build"
    e, exe = {"BLOGC": mk.BIN["rec"]}, None
    if place == "out":
        out, e["OUTPUT_DIR"] = root + "/" + w, w
    elif place == "out2":
        out = t + "/o" + w + "/x"
        e["OUTPUT_DIR"] = out
    elif place == "blogc":
        os.symlink(mk.BIN["rec"], t + "/" + w)
        e["BLOGC"] = t + "/" + w
    elif place == "argv0":
        os.makedirs(t + "/" + w)
        os.symlink(mk.BIN["rec"], t + "/" + w + "/blogc")
        os.symlink(mk.BIN["blogc-make"], t + "/" + w + "/blogc-make")
        e = {}
        exe = t + "/" + w + "/blogc-make"
    before = procs.tree(t)
    if place == "argv0":
        r = procs.run([exe], cwd=root, env={k: v for k, v in mk.env(root).items() if k != "BLOGC"})
    else:
        r = mk.make(root, **e)
    after = procs.tree(t)
    want = {}
    for p, x in c.want():
        want[os.path.normpath(os.path.relpath(out + "/" + p, t))] = ("f", x["content"] if x["rule"] == "copy" else mk.record(c, x, root))
    if r.rc:
        bad.append("%s %r: %r" % (place, w, r))
    got = {k: v for k, v in after.items() if before.get(k) != v and (v[0] != "d")}
    if not bad and got != want:
        bad.append("%s %r: %s" % (place, w, show(want, got)))
    dirs = {k for k, v in after.items() if v[0] == "d" and k not in before}
    need = {os.path.dirname(k) for k in want}
    stray = [k for k in dirs if "\\" not in w and not any(n == k or n.startswith(k + "/") for n in need)]
    if not bad and stray:
        bad.append("%s %r: unexpected directories %r" % (place, w, stray))
    return {"bad": bad, "state": (place, w), "outcome": (r.rc, hash(repr(sorted(got)))), "steps": len(want), "tally": {"built": len(got)}}


def text(v):
    """A record made readable"""
    if v is None:
        return "nothing"
    r = []
    for l in v[1].decode(errors="replace").splitlines():
        k, _, x = l.rpartition("=" if l[:2] == "D " else " ")
        try:
            r.append(k + " " + bytes.fromhex(x).decode("utf-8", "replace") if x != "-" else k)
        except ValueError:
            r.append(l)
    return " | ".join(x for x in r if x[:2] != "t ")


def show(want, got):
    for k in sorted(set(want) | set(got)):
        if want.get(k) != got.get(k):
            a, b = text(want.get(k)), text(got.get(k))
            i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), 0)
            return "%s: expected ...%s, found ...%s" % (k, a[max(0, i - 60):i + 160], b[max(0, i - 60):i + 160])


def serve(place, w, root):
    c = mk.Conf((), posts=[], pages=["about"], tags=[], copy=[])
    procs.plant(root, c.tree())
    log = root + "/../log"
    a = {"host": "127.0.0.1", "port": "8080", "threads": "5"}
    o = None
    if place in a:
        a[place] = w
    else:
        o = "o" + w
    r = mk.make(root, ["runserver:" + ",".join("%s=%s" % x for x in a.items())], BLOGC_RUNSERVER=mk.BIN["rec"], REC_AS="server", REC_LOG=log, REC_EXIT="0", LD_PRELOAD=mk.BIN["nap"], **({"OUTPUT_DIR": o} if o else {}))
    hx = lambda v: v.encode("utf-8", "surrogateescape").hex() or "-"
    args = {"-t": a["host"], "-p": a["port"], "-m": a["threads"]}
    got = open(log).read().split() if os.path.exists(log) else []
    pairs = dict(zip(got[1:-1:2], got[2:-1:2]))
    bad = []
    if pairs != {hx(k): hx(v) for k, v in args.items()} or got[-1:] != [hx(root + "/" + (o or "_build"))] or got.count("server") != 1:
        bad.append("runserver %s %r: the server got %r: %r" % (place, w, [bytes.fromhex(x).decode(errors="replace") if x not in ("-", "server") else x for x in got], r))
    extra = [f for f in os.listdir(root) + os.listdir(root + "/..") if f == "pwned"]
    if extra:
        bad.append("runserver %s %r: created %r" % (place, w, extra))
    return {"bad": bad, "state": (place, w), "outcome": (r.rc,)}


def cases(th):
    words = [""] + list(ALPHA) + ["".join(p) for p in itertools.product(ALPHA, repeat=2)]
    more = ["".join(p) for p in itertools.product("'\"\\$`; !#a%", repeat=3)]
    heavy = ["global", "tag", "post", "page", "copy", "locale", "blogc", "out"]
    res = []
    for pl in VALUE + NAMES + SERVER:
        ws = PAY + words
        if not th:
            if pl in SERVER:
                ws = PAY + [""] + list(ALPHA) + ["".join(p) for p in itertools.product("'\\$! ", repeat=2)]
            elif pl not in heavy:
                ws = PAY + [""] + list(ALPHA) + ["".join(p) for p in itertools.product("'\\$`; !#%*\"a", repeat=2)]
        elif pl not in SERVER:
            ws = ws + more
        res += [(pl, w) for w in ws if possible(pl, w)]
    res += [("key", w) for w in words + PAY if "=" not in w and "\n" not in w and w.strip() == w and not w.startswith(("[", "#", ";"))]
    res += [("key", w) for w in ("B", "B_C", "B1", "b", "Bb", "B-", "B.C", "É")]
    return res


def main(tier):
    ck = vrun.Check("M07", tier)
    mk.setup()
    ex = procs.Explorer(ck, run, "M07", unpriv=True)
    ex.all(cases(tier == "thorough"), "words")
    ex.close()
    return ck.finish(RULE, ["the stand-in shim/rec.c records what the real shell gives it; /bin/sh is the system's (dash)", "names that no file can have and line breaks in names are left out", "the reference lib/mk.py was written from blogcfile(5) and blogc-make(1)"])


def replay(a):
    mk.setup()
    return procs.replay(run, a, unpriv=True)
