"""blogc-make's command line: which rules run, in which order, on which site, and how the program is called."""
import itertools, os, re
import mk, procs, vrun
import inproc

RULE = "the program itself on scratch sites: all command lines of up to 2 (thorough 3) words over rules, rules with arguments, unknown rules and options, longer ones over a smaller vocabulary, called as blogc-make and as blogc -m, from the site, from elsewhere with every spelling of -f, with settings files that are missing, invalid or of another name, under make or not, with a site whose rules fail: the files built, with their content, the exit status, what is printed, and that nothing else changes, compared with a reference of the rules"
RULES = ("index", "atom", "atom_tags", "pagination", "pagination_tags", "posts", "tags", "pages", "copy")
WORDS = list(RULES) + ["all", "clean", "atom_dump", "nope", "Index", "index:a=b", "all:", "clean:x", "posts:a=b,c=d", "inde", "indexx", "", "-D", "-V", "-h", "-v", "-x", "-"]
FEW = ["all", "index", "posts", "clean", "nope", "-D", "copy:x=y", "atom"]
BIN = {}
REF = {}


def conf(name, dev=False):
    if name == "full":
        return mk.Conf({"posts_per_page": "2", "listing_entry": "intro", "atom_template": "a.tmpl"}, pages=("about", "more"), dev=dev)
    if name == "bare":
        return mk.Conf({}, posts=(), pages=("about",), tags=(), copy=(), dev=dev)
    if name in ("make", "makeno"):
        return mk.Conf({"run_from_make": "yes" if name == "make" else "no", "atom_template": "a.tmpl"}, posts=("p1",), pages=("about",), tags=(), dev=dev)
    if name == "badpage":
        return mk.Conf({"atom_template": "a.tmpl"}, posts=("p1",), pages=("about",), tags=("ta",), dev=dev)
    raise KeyError(name)


def wanted(name, dev, root):
    """{path: (rule, content)}"""
    if (name, dev, root) not in REF:
        c = conf(name, dev)
        REF[name, dev, root] = {os.path.normpath(p): (w["rule"], w["content"] if w["rule"] == "copy" else mk.reference(c, root, w)) for p, w in c.want()}
    return REF[name, dev, root]


def read(argv):
    """What is asked for: ('help',), ('version',), ('error',) or ('run', rules, dev, verbose, file or None)"""
    rules, dev, verb, f, i = [], False, False, None, 0
    while i < len(argv):
        a = argv[i]
        i += 1
        if a[:1] != "-":
            rules.append(a)
        elif a[1:2] == "h":
            return ("help",)
        elif a[1:2] == "v":
            return ("version",)
        elif a[1:2] == "D":
            dev = True
        elif a[1:2] == "V":
            verb = True
        elif a[1:2] == "f":
            f = a[2:]
            if not f:
                if i >= len(argv):
                    return ("error",)
                f = argv[i]
                i += 1
        else:
            return ("error",)
    return ("run", rules or ["all"], dev, verb, f)


def one(case, d):
    name, argv, route, cwd, makeflags = case
    d = procs.fresh(d)
    root = os.path.join(d, "site")
    c = conf(name)
    files = c.tree()
    if name == "badpage":
        files["content/about.txt"] = "bad key\n"
    base = dict(files)
    # other settings files beside the default one
    files["alt.ini"] = conf("bare").text()
    files["broken.ini"] = "[global]\nSITE_TITLE = x\n"
    files["odd.ini"] = "x[global\n"
    if cwd == "none":
        files.pop("blogcfile")
    procs.plant(root, files)
    os.makedirs(os.path.join(d, "else"))
    argv = [a.replace("@", root) for a in argv]
    where = {"site": root, "none": root, "else": d + "/else", "content": root + "/content", "parent": d}[cwd]
    env = mk.env(root, **({"MAKEFLAGS": ""} if makeflags else {}))
    if route == "embedded":
        cmd = [BIN["blogc-embedded"], "-m"] + argv
    elif route == "path":                                   # found in $PATH, and blogc as well
        cmd = ["blogc-make"] + argv
        env["PATH"] = os.path.dirname(mk.BIN["blogc-make"]) + ":" + procs.ENV["PATH"]
        env.pop("BLOGC")
    else:
        cmd = [mk.BIN["blogc-make"]] + argv
    r = procs.run(cmd, cwd=where, env=env, timeout=60)
    out, err = r.out.decode("utf-8", "replace"), r.err.decode("utf-8", "replace")
    w = "%s%s in %s (site '%s')" % ("blogc -m " if route == "embedded" else "blogc-make ", " ".join(repr(a) for a in argv), cwd, name)
    a = read(argv)
    bad = []
    got = procs.tree(d)
    want = {k: v for k, v in procs.tree(d).items() if not k.startswith("site/_build")}
    for k in sorted(set(files)):
        v = files[k]
        if got.get("site/" + k) != ("f", v if isinstance(v, bytes) else v.encode()):
            bad.append("%s is changed" % k)
    extra = [k for k in want if want[k][0] == "f" and k[5:] not in files]
    if extra:
        bad.append("files outside of the output: %r" % extra[:5])
    built = {k[len("site/_build/"):]: v[1] for k, v in got.items() if k.startswith("site/_build/") and v[0] == "f"}
    exp, free, status, told = {}, set(), 0, None
    site = name
    if a[0] == "run":
        f = a[4] if a[4] is not None else "blogcfile"
        p = os.path.normpath(os.path.join(where, f))
        if p == root + "/alt.ini":
            site = "bare"
        elif p != root + "/blogcfile" or cwd == "none":
            a = ("nofile",)
        elif name == "make" and not makeflags:
            a = ("nomake",)
    if a[0] == "run":
        want = wanted(site, a[2], root)
        for rl in a[1]:
            n, _, args = rl.partition(":")
            if n in RULES or n == "all":
                for k, (rr, v) in want.items():
                    if n in (rr, "all"):
                        exp[k] = v
                if name == "badpage" and site == name and n in ("all", "pages"):
                    for k, (rr, v) in want.items():
                        if rr in ("pages", "copy"):
                            exp.pop(k, None)
                        elif n == "all":
                            free.add(k)
                    free |= {k for k, (rr, v) in want.items() if rr == "copy" and n == "all"}
                    status = 1
                    break
            elif n == "clean":
                exp = {}
            elif n == "atom_dump":
                pass
            else:
                status = 1
                told = n
        unknown = [rl for rl in a[1] if rl.partition(":")[0] not in RULES + ("all", "clean", "atom_dump")]
    if a[0] == "help":
        if r.rc != 0 or not all(x in out for x in ("usage:", "-f FILE", "-D", "-V") + RULES + ("clean", "runserver", "watch")):
            bad.append("help: %r" % r)
    elif a[0] == "version":
        if r.rc != 0 or not re.match(r"^blogc \S+\n$", out):
            bad.append("version: %r" % r)
    elif a[0] != "run":
        if r.rc == 0 or r.rc >= 124 or not err.strip():
            bad.append("%s, but %r" % ({"error": "a wrong command line", "nofile": "no usable settings", "nomake": "not run from make"}[a[0]], r))
    else:
        if (r.rc != 0) != (status != 0) or r.rc >= 124:
            bad.append("exit status %d, should be %s: %r" % (r.rc, status or 0, r))
        if status and not err.strip():
            bad.append("no diagnostic")
        if told is not None and not (told in err):
            bad.append("unknown rule %r, but the diagnostic is %r" % (told, err[:200]))
        x = {k: v for k, v in built.items() if k not in free}
        y = {k: v for k, v in exp.items() if k not in free}
        if x != y:
            k = next(k for k in sorted(set(x) | set(y)) if x.get(k) != y.get(k))
            bad.append("%s is %.200r, should be %.200r; built: %r; %r" % (k, x.get(k), y.get(k), sorted(x)[:12], r))
        elif not free:
            for k in exp:
                if k not in out and not (a[3] and "AUTHOR_NAME" in out):
                    bad.append("%s was built, but this is not said: %r" % (k, out[:300]))
                    break
    if a[0] != "run" and built:
        bad.append("built %r" % sorted(built)[:5])
    return {"bad": [w + ": " + b for b in bad], "state": (a[0], site, tuple(sorted(exp))), "outcome": (r.rc, tuple(sorted(built)), hash(repr(sorted(built.items())))), "steps": len(built) + 1, "tally": {a[0]: 1, route: 1}}


def cases(th):
    S = ("site", False)
    for n in range(0, 4 if th else 3):
        for w in itertools.product(WORDS, repeat=n):
            stop = next((i for i, a in enumerate(w) if a in ("-h", "-v", "-x", "-")), None)
            if stop is not None and stop < n - 1 and (n > 2 or w[stop + 1] not in ("-h", "-x", "all")):
                continue
            yield ("full", w, "plain") + S
            if n < 2:
                for name in ("bare", "badpage", "make", "makeno"):
                    yield (name, w, "plain") + S
                for name in ("full", "bare", "badpage"):
                    for route in ("embedded", "path"):
                        yield (name, w, route) + S
    for n in range(2, 5 if th else 4):
        for w in itertools.product(FEW, repeat=n):
            if n == 2:
                yield ("full", w, "embedded") + S
                yield ("badpage", w, "plain") + S
            elif n == 3 and not th or n == 4:
                yield ("full" if n == 3 else "makeno", w, "plain") + S
    for f in ("blogcfile", "alt.ini", "broken.ini", "odd.ini", "missing.ini", "content"):
        for cwd, p in (("site", f), ("site", "./" + f), ("site", "@/" + f), ("else", "../site/" + f), ("else", "@/" + f), ("content", "../" + f), ("parent", "site/" + f), ("parent", "./site//" + f), ("else", f), ("content", f), ("none", f)):
            for w in (("-f", p), ("-f" + p,), ("-f", p, "all", "-D"), ("index", "-f", p), ("clean", "-f", p, "pages"), ("-f", "missing", "-f", p), ("-f", p, "nope")):
                for route in ("plain", "embedded", "path"):
                    yield ("full", w, route, cwd, False)
    for cwd in ("site", "else", "content", "none"):
        for w in ((), ("all",), ("-f",), ("all", "-f"), ("-f", ""), ("-D", "-f"), ("-Vx",), ("-DD", "all"), ("-DV",)):
            for route in ("plain", "embedded", "path"):
                yield ("full", w, route, cwd, False)
    for name in ("make", "makeno", "full"):
        for w in ((), ("all",), ("index", "nope"), ("clean",), ("-D",), ("-f", "alt.ini"), ("-f", "@/blogcfile")):
            for mf in (False, True):
                for route in ("plain", "embedded"):
                    yield (name, w, route, "site", mf)


def setup():
    mk.setup()
    BIN.update(vrun.binaries("plain", ("blogc-embedded",), ("-DMAKE_EMBEDDED=1",)))


def main(tier):
    ck = vrun.Check("M08", tier)
    setup()
    cs = list(dict.fromkeys(cases(tier == "thorough")))
    ex = procs.Explorer(ck, one, "M08", unpriv=True)
    ex.all(cs, "command lines")
    ex.close()
    return ck.finish(RULE, inproc.ASSUME)


def replay(a):
    setup()
    return procs.replay(one, a, unpriv=True)
