"""Input files: in-process enumeration (harness/B12.cpp), and the read calls of the real programs under faults."""
import json, os, subprocess
import inproc, procs, vrun

LD = ()
RULE = "all sequences of up to 3 bytes and 4-byte sequences (thorough: all), words over the class boundaries, files and standard inputs of sizes around every multiple of the chunk size with every character position, through the readers and through the source and template parsers; every read of 6 program runs failing, halved and cut to one byte, all reads limited to 1..9 and 1023..1025 bytes; invalid UTF-8 in every kind of input file of every program"
REQ = "AUTHOR_NAME = a\nAUTHOR_EMAIL = b\nSITE_TITLE = c\nSITE_TAGLINE = d\nBASE_DOMAIN = e\n"
LONG = "é€😀ab" * 180
FILES = {"a.txt": "TITLE: " + LONG + "\n---\n" + LONG + "\n", "t.tmpl": "[" + LONG * 3 + "{{ TITLE }}]", "bom.txt": "\ufeffTITLE: b\n---\nx\n", "list": "# " + "é" * 1000 + "\nbom.txt\na.txt",
         "mk/blogcfile": "[global]\n" + REQ + "A = " + LONG + "\n[pages]\n", "mk/templates/main.tmpl": "x"}
SC = {"source": ("blogc", ["-p", "TITLE", "a.txt"], None), "template": ("blogc", ["-t", "t.tmpl", "a.txt"], None), "entry": ("blogc", ["-l", "-e", "a.txt", "-t", "t.tmpl", "bom.txt"], None), "stdin": ("blogc", ["-l", "-i", "-p", "FILENAME_LAST"], "list"),
      "bom": ("blogc", ["-p", "TITLE", "bom.txt"], None), "make": ("blogc-make", ["-f", "mk/blogcfile"], None)}
BIN, WANT = {}, {}


def go(name, d, files=FILES, **fi):
    d = procs.fresh(d)
    procs.plant(d, files)
    prog, argv, si = SC[name]
    cmd = procs.with_fi([BIN[prog]] + argv, [d], log=os.path.join(os.path.dirname(d), "log"), names=[prog], **fi) if fi.pop("trace", True) else [BIN[prog]] + argv
    f = open(os.path.join(d, si), "rb") if si else open("/dev/null", "rb")
    r = procs.run(cmd, cwd=d, stdin=f)
    f.close()
    return r


def read_fault(case, d):
    _, name, n, mode, desc = case
    r = go(name, d, n=n, mode=mode)
    bad = []
    if mode.startswith("err"):
        if r.rc == 0 or r.rc >= 120 or not r.err:
            bad.append("%s: %s: the error is not reported: %r" % (name, desc, r))
    elif (r.rc, r.out) != WANT[name]:
        bad.append("%s: %s: the result changes: %r instead of %r" % (name, desc, r, WANT[name]))
    return {"bad": bad, "state": (name, n, mode), "outcome": (name, r.rc, r.err[:60]), "tally": {"read faults": 1}}


SEQ = ["\x80", "\xbf", "\xc0\x80", "\xc1\xbf", "\xc2", "\xc2\x41", "\xe0\x9f\xbf", "\xe0\xa0", "\xe2\x82", "\xed\xa0\x80", "\xed\xbf\xbf", "\xf0\x8f\xbf\xbf", "\xf0\x9f\x98", "\xf4\x90\x80\x80", "\xf5\x80\x80\x80", "\xf8\x88\x80\x80\x80", "\xfe", "\xff",
       "\xc2\x80", "\xdf\xbf", "\xe0\xa0\x80", "\xed\x9f\xbf", "\xee\x80\x80", "\xef\xbf\xbf", "\xf0\x90\x80\x80", "\xf4\x8f\xbf\xbf", "\xef\xbb\xbf", "\x7f"]
PLACES = {"source": [("a.txt", "TITLE: a%sb\n---\nx\n"), ("a.txt", "TITLE: b\n---\nx%s\n"), ("a.txt", "TITLE: b\n---\nx%s")], "template": [("t.tmpl", "a%sb"), ("t.tmpl", "a%s")], "entry": [("a.txt", "TITLE: a%sb\n---\nx\n")],
          "make": [("mk/blogcfile", "[global]\n" + REQ + "A = x%sy\n"), ("mk/blogcfile", "# %s\n[global]\n" + REQ)]}


def sequence(case, d):
    _, name, k, seq = case
    f, t = PLACES[name][k]
    b = seq.encode("latin-1")
    try:
        b.decode("utf-8")
        ok = True
    except UnicodeDecodeError:
        ok = False
    files = dict(FILES)
    files[f] = t.encode().replace(b"%s", b)
    r = go(name, d, files, trace=False)
    bad = []
    if ok != (r.rc == 0):
        bad.append("%s: %s with %r: %r" % (name, f, b, r))
    if not ok and (not r.err or r.rc >= 120):
        bad.append("%s: %s with %r: no diagnostic: %r" % (name, f, b, r))
    return {"bad": bad, "state": (name, k, ok), "outcome": (name, ok, r.rc), "tally": {"program inputs": 1}}


def one(case, d):
    return read_fault(case, d) if case[0] == "read" else sequence(case, d)


def setup(d):
    BIN.update(vrun.binaries("plain"))
    os.environ["BLOGC"] = procs.ENV["BLOGC"] = BIN["blogc"]
    pts = {}
    for name in SC:
        r = go(name, d)
        if r.rc:
            raise vrun.Broken("scenario %s fails without faults: %r" % (name, r))
        WANT[name] = (0, r.out)
        pts[name] = [p for p in procs.points(os.path.join(d, "log")) if p["call"] in ("read", "pread64", "readv")]
        if not pts[name]:
            raise RuntimeError("no read seen in " + name)
    return pts


def main(tier):
    ck = vrun.Check("B12", tier)
    exe = vrun.harness("B12", ["blogc", "common"])
    ck.run_harness(exe)
    subprocess.run("rm -f /tmp/b12-[0-9]*", shell=True)
    base = procs.scratch("B12s")
    pts = setup(base)
    cases = []
    for name, p in pts.items():
        for x in p:
            for mode, w in (("err:5", "fails with EIO"), ("err:21", "fails with EISDIR"), ("short", "is halved"), ("one", "delivers one byte")):
                cases.append(("read", name, x["n"], mode, "read #%d of %s %s" % (x["n"], x["what"], w)))
        for k in list(range(1, 10)) + [1023, 1024, 1025]:
            cases.append(("read", name, 0, "max:%d" % k, "reads of at most %d bytes" % k))
    for name, pl in PLACES.items():
        for k in range(len(pl)):
            cases += [("seq", name, k, s) for s in SEQ]
    ex = procs.Explorer(ck, one, "B12")
    ex.all(cases, "programs")
    ex.close()
    return ck.finish(RULE, inproc.ASSUME + ["NUL bytes are delivered to the parsers, but text values end at them"])


def replay(a):
    if a["kind"] == "harness":
        exe = vrun.harness("B12", ["blogc", "common"])
        p = os.path.join(vrun.BUILD, "replay.hex")
        open(p, "w").write(a["hex"])
        return subprocess.run([exe, "--replay", p], env=dict(os.environ, TZ="UTC", LC_ALL="C", ASAN_OPTIONS="detect_leaks=0")).returncode
    base = procs.scratch("B12s")
    setup(base)
    return procs.replay(one, a)
