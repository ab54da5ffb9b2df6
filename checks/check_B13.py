"""blogc as a process: every option combination against a reference, every single fault of every file call."""
import itertools, os, re
import procs, vrun

T = "[{% block entry %}E{{ TITLE }}{% endblock %}{% block listing %}L{{ TITLE }}{% endblock %}{% block listing_entry %}<{{ TITLE }}>{% endblock %}]{{ A }}\n"
FILES = {"a.txt": "TITLE: aa\n---\nx\n", "b.txt": "TITLE: bb\n---\ny\n", "bad.txt": "TITLE aa\n---\nx\n", "u.txt": b"TITLE: \xff\n---\nx\n", "t.tmpl": T, "bad.tmpl": "{% if %}", "e.tmpl": "", "dir": None, "old.html": "old" * 3000, "-": "TITLE: dash\n---\nx\n"}
TITLE = {"a.txt": "aa", "b.txt": "bb", "-": "dash"}
TOK = [("-l",), ("-i",), ("-d",), ("-e", "a.txt"), ("-eb.txt",), ("-e", ""), ("-e", "bad.txt"), ("-t", "t.tmpl"), ("-tt.tmpl",), ("-t", "bad.tmpl"), ("-t", "no.tmpl"), ("-t", "e.tmpl"),
       ("-o", "o/p/x.html"), ("-oold.html",), ("-o", "-"), ("-o", "a.txt/x"), ("-o", "dir"), ("-p", "TITLE"), ("-pA",), ("-p", "NOPE"), ("-D", "A=1"), ("-DA=2=3",), ("-D", "a=1"), ("-D", "A"), ("-D", "=1"), ("-D", "A-b=1"),
       ("-D", "A=\udcff"), ("-D", "1A=x"), ("-D", "A="), ("a.txt",), ("b.txt",), ("no.txt",), ("bad.txt",), ("u.txt",), ("dir",), ("",), ("-z",), ("-",), ("-h",), ("-v",), ("-t",), ("-o",), ("-D",), ("-p",), ("-e",)]
BASES = [(), ("-t", "t.tmpl", "a.txt"), ("-l", "-t", "t.tmpl", "a.txt", "b.txt"), ("-l", "-i", "-t", "t.tmpl"), ("-i", "-p", "TITLE"), ("-t", "t.tmpl", "-o", "q/r.html", "a.txt")]
STDIN = ["", "a.txt\n", "# x\n\n  b.txt \r\na.txt", "no.txt\n", "a.txt\n#b.txt\n"]


def parse(argv, stdin):
    """(kind, text, file): 'out' with the exact standard output and output file, or 'help'/'version'/'error'."""
    o = {"e": [], "t": None, "o": None, "p": None, "D": {}, "l": False, "i": False}
    src, i = [], 0
    while i < len(argv):
        a = argv[i]
        i += 1
        if not a.startswith("-"):
            src.append(a)
            continue
        c = a[1:2]
        if c == "h":
            return "help", None, None
        if c == "v":
            return "version", None, None
        if c in ("l", "i"):
            o[c] = True
            continue
        if c == "d":
            continue
        if c == "" or c not in "etopD":
            return "error", None, None
        if len(a) > 2:
            v = a[2:]
        elif i < len(argv):
            v = argv[i]
            i += 1
        else:
            return "error", None, None
        if c == "e":
            o["e"].append(v)
        elif c == "D":
            k, eq, w = v.partition("=")
            if not eq or not re.match(r"[A-Z][A-Z0-9_]*\Z", k) or any(0xdc80 <= ord(x) <= 0xdcff for x in v):
                return "error", None, None
            o["D"][k] = w
        else:
            o[c] = v
    if o["i"]:
        for line in re.split(r"[\r\n]", stdin):
            line = line.strip()
            if line and not line.startswith("#"):
                src.append(line)
    if not o["l"] and len(src) != 1:
        return "error", None, None
    if any(s not in TITLE for s in src):
        return "error", None, None
    if o["l"] and any(e not in TITLE and e for e in o["e"]):
        return "error", None, None
    if o["p"] is not None:
        if o["p"] == "TITLE" and not o["l"]:
            return "out", TITLE[src[0]] + "\n", None
        if o["p"] in o["D"]:
            return "out", o["D"][o["p"]] + "\n", None
        return "error", None, None
    if o["t"] is None or FILES.get(o["t"]) is None or o["t"] in ("bad.tmpl", "u.txt"):
        return "error", None, None
    if o["t"] != "t.tmpl":
        r = FILES[o["t"]]
    elif o["l"]:
        r = "[" + "".join("L" + TITLE[s] for s in src) + ("<%s>" % TITLE[o["e"][0]] if o["e"] and o["e"][0] else "") + "]" + o["D"].get("A", "") + "\n"
    else:
        r = "[E%s]%s\n" % (TITLE[src[0]], o["D"].get("A", ""))
    if o["o"] is None or o["o"] == "-":
        return "out", r, None
    if o["o"] in ("a.txt/x", "dir", ""):   # the others are names in directories that exist or can be made
        return "error", None, None
    return "out", r, o["o"]


def options(case, d):
    argv, stdin = list(case[1]), case[2]
    d = procs.fresh(d)
    procs.plant(d, FILES)
    kind, text, of = parse(argv, stdin)
    before = procs.tree(d)
    r = procs.run([BIN["blogc"]] + [os.fsencode(a) for a in argv], cwd=d, stdin=stdin.encode())
    after = procs.tree(d)
    bad = []
    what = "blogc %s (standard input %r)" % (" ".join(repr(a) for a in argv), stdin)
    if kind == "error":
        if r.rc == 0:
            bad.append("%s: accepted, but the reference rejects it: %r" % (what, r))
        elif r.rc >= 124:
            bad.append("%s: %r" % (what, r))
        elif not r.err:
            bad.append("%s: exit %d without a diagnostic" % (what, r.rc))
        elif len([x for x in r.err.split(b"\n") if b"error: " in x]) != 1:
            bad.append("%s: not one diagnostic: %r" % (what, r))
    elif kind == "help":
        if r.rc or b"usage:" not in r.out:
            bad.append("%s: no help: %r" % (what, r))
    elif kind == "version":
        if r.rc or not r.out.startswith(b"blogc "):
            bad.append("%s: no version: %r" % (what, r))
    else:
        if r.rc:
            bad.append("%s: rejected: %r" % (what, r))
        else:
            exp = dict(before)
            if of:
                for k in range(1, of.count("/") + 1):
                    exp["/".join(of.split("/")[:k])] = ("d",)
                exp[of] = ("f", text.encode())
            if exp != after:
                bad.append("%s: files differ: %s" % (what, procs.diff(exp, after)))
            if r.out != (b"" if of else text.encode()):
                bad.append("%s: standard output %r instead of %r" % (what, r.out, "" if of else text))
    return {"bad": bad, "state": (kind, text, of), "outcome": (r.rc, r.out[:60], of), "steps": len(argv), "tally": {kind: 1}}


BIG = "TITLE: big\n---\n" + "".join("paragraph %d\n\n" % i for i in range(700))
SC = {
    "entry": (["-t", "t.tmpl", "-o", "o/p/x.html", "a.txt"], None),
    "existing": (["-t", "t.tmpl", "-o", "old.html", "a.txt"], None),
    "listing": (["-l", "-t", "t.tmpl", "-e", "a.txt", "-o", "x.html", "a.txt", "b.txt"], None),
    "stdout": (["-t", "t.tmpl", "a.txt"], None),
    "dash": (["-t", "t.tmpl", "-o", "-", "a.txt"], None),
    "print": (["-p", "TITLE", "a.txt"], None),
    "list": (["-l", "-i", "-t", "t.tmpl", "b.txt"], "list"),
    "big": (["-t", "big.tmpl", "-o", "x.html", "big.txt"], None),
    "bigout": (["-t", "big.tmpl", "big.txt"], None),
    "biglist": (["-l", "-i", "-D", "A=z", "-o", "d1/x", "-t", "t.tmpl"], "biglist"),
}
EXTRA = {"big.txt": BIG, "big.tmpl": "{{ CONTENT }}", "list": "a.txt\n", "biglist": "# " + "c" * 5000 + "\na.txt\n" + "#\n" * 3000 + "b.txt"}


def fault_run(name, d, **fi):
    d = procs.fresh(d)
    procs.plant(d, dict(FILES, **EXTRA))
    argv, stdin = SC[name]
    cmd = procs.with_fi([BIN["blogc"]] + argv, [d], log=os.path.join(os.path.dirname(d), "log"), **fi)
    so = open(os.path.join(d, "stdout"), "wb")
    si = open(os.path.join(d, stdin), "rb") if stdin else open("/dev/null", "rb")
    r = procs.run(cmd, cwd=d, stdin=si, stdout=so)
    so.close()
    si.close()
    return r, procs.tree(d)


def fault(case, d):
    _, name, n, mode, desc, want = case
    r, t = fault_run(name, d, n=n, mode=mode)
    bad = []
    what = "blogc %s, %s" % (" ".join(SC[name][0]), desc)
    exp = WANT[name]
    if r.rc == 0:
        if t != exp:
            bad.append("%s: exit 0, but %s" % (what, procs.diff(exp, t)))
    elif want:
        bad.append("%s: failed: %r" % (what, r))
    elif r.rc >= 120:
        bad.append("%s: %r" % (what, r))
    elif not r.err:
        bad.append("%s: exit %d without a diagnostic" % (what, r.rc))
    return {"bad": bad, "state": (name, n, mode), "outcome": (name, r.rc, r.err[:80]), "steps": 1, "tally": {"survived" if r.rc == 0 else "reported": 1}}


BIN, WANT = {}, {}


def setup(d):
    BIN.update(vrun.binaries("plain"))
    procs.fi()
    pts = {}
    for name in SC:
        r, t = fault_run(name, d)
        if r.rc:
            raise vrun.Broken("scenario %s fails without faults: %r" % (name, r))
        WANT[name] = t
        pts[name] = procs.points(os.path.join(d, "log"))
        if not pts[name]:
            raise RuntimeError("no fault points seen")
    return pts


def cases(tier, pts):
    res = []
    for name, p in pts.items():
        for n, mode, desc in procs.faults(p):
            res.append(("fault", name, n, mode, desc, mode in ("short", "one")))
        for k in (1, 7, 1000):
            res.append(("fault", name, 0, "max:%d" % k, "every read and write moves at most %d bytes" % k, True))
    return res


def argvs(tier):
    seen = set()
    for b in BASES:
        for ln in range(0, 3 if tier == "quick" else 4):
            if ln == 3 and b not in ((), BASES[1], BASES[3]):
                continue
            for w in itertools.product(TOK, repeat=ln):
                x = tuple(a for t in w for a in t)
                for argv in (b + x, x + b):
                    if argv not in seen:
                        seen.add(argv)
                        ins = STDIN if "-i" in argv and (ln < 2 or tier != "quick") else STDIN[2:3] if "-i" in argv else STDIN[:1]
                        for s in ins[: 5 if ln < 3 else 2]:
                            yield ("options", argv, s)


def keys(tier):
    """Names of variables: every byte, alone, first and later, and all short words; each printed back."""
    ks = set()
    for c in range(1, 256):
        for p in ("", "A", "A_", "VAR"):
            for q in ("", "A", "9", "_B"):
                ks.add(p + os.fsdecode(bytes([c])) + q)
    for ln in range(1, 4 if tier == "quick" else 5):
        ks.update("".join(w) for w in itertools.product("AZaz09_-=", repeat=ln))
    for k in sorted(ks):
        n = k.split("=")[0]
        yield ("options", ("-D" + k + "=v w", "-p", n, "a.txt"), "")
        if tier != "quick":
            yield ("options", ("-D", k + "=v w", "-l", "-p", n, "a.txt"), "")


def one(case, d):
    return options(case, d) if case[0] == "options" else fault(case, d)


def main(tier):
    ck = vrun.Check("B13", tier)
    base = procs.scratch("B13s")
    pts = setup(base)
    ex = procs.Explorer(ck, one, "B13")
    ex.all(list(argvs(tier)), "options")
    if len(ck.violations) < 6:
        ex.all(list(keys(tier)), "names of variables")
    if len(ck.violations) < 6:
        ex.all(cases(tier, pts), "faults")
    ex.close()
    ck.add(tally={"fault points": sum(len(p) for p in pts.values())})
    return ck.finish("all argument lists of a base and up to two (thorough three) further options, before or after it, over 45 option tokens and 5 standard inputs, compared with a reference of blogc(1); -D with every byte in every position of a name and all names of up to 3 (thorough 4) characters over 9; every file call of 10 runs failing with each error of its kind, moving half or one byte, and all transfers limited to 1, 7 and 1000 bytes",
                     ["faults are injected at the system call boundary with ptrace; one fault per run", "grouped short options (-li) are not part of the vocabulary"])


def replay(a):
    base = procs.scratch("B13s")
    setup(base)
    return procs.replay(one, a)
