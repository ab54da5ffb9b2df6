"""The web server's command line and how it gets its socket: the program itself, with stand-ins (shim/net.c) for the network."""
import itertools, os, re
import procs, vrun
import inproc

RULE = "the program itself with recording stand-ins for the network: all command lines of up to 3 (thorough 4) words over 20 words under 4 environments; all lists of up to 3 (thorough 4) addresses of both families with every way of each (works, no socket, no option, address taken) and a failing listen, a failing lookup; all thread counts around the bounds: what is looked up, bound, listened to, which document root is served, how many connections at once, what is printed, and the exit status, compared with a reference reading of the options"
WORDS = ["-h", "-v", "-t", "-p", "-m", "-t127.0.0.3", "-p81", "-m2", "127.0.0.4", "82", "3", "site", "other", "-x", "-", "-m0", "-m1001", "-mx", "", "-t::1"]
ENVS = [{}, {"BLOGC_RUNSERVER_DEFAULT_HOST": "127.0.0.9"}, {"BLOGC_RUNSERVER_DEFAULT_PORT": "99"}, {"BLOGC_RUNSERVER_DEFAULT_HOST": "127.0.0.8", "BLOGC_RUNSERVER_DEFAULT_PORT": "80"}]
BIN = {}


def reference(argv, env):
    """('help'|'version'|'error'|'run', host, port, docroot, threads); threads may be a set of allowed outcomes"""
    host, port = env.get("BLOGC_RUNSERVER_DEFAULT_HOST", "127.0.0.1"), env.get("BLOGC_RUNSERVER_DEFAULT_PORT", "8080")
    dh, dp = host, port
    root, threads, i = None, "20", 0
    while i < len(argv):
        a = argv[i]
        i += 1
        if a[:1] != "-":
            if root is not None:
                return ("error",)
            root = a
            continue
        if a[1:2] == "h":
            return ("help", dh, dp)
        if a[1:2] == "v":
            return ("version",)
        if a[1:2] not in ("t", "p", "m") or a == "-":
            return ("error",)
        v = a[2:]
        if not v:
            if i >= len(argv):
                return ("error",)
            v = argv[i]
            i += 1
        if a[1] == "t":
            host = v
        elif a[1] == "p":
            port = v
        else:
            threads = v
    if root is None:
        return ("error",)
    m = re.match(r"[0-9]*", threads).group()            # what follows the number is ignored with a warning
    if not m or not 1 <= int(m) <= 1000:
        return ("error",)
    if m != threads:
        return ("run", host, port, root, int(m), "warn")
    return ("run", host, port, root, int(threads))


def fields(f):
    r = {}
    if os.path.exists(f):
        for l in open(f):
            k, _, v = l.rstrip("\n").partition(" ")
            r.setdefault(k, []).append(v)
    return r


def unhex(v):
    return None if v == "none" else b"" if v == "-" else bytes.fromhex(v)


def numeric(h):
    return re.match(r"^(\d+\.\d+\.\d+\.\d+|[0-9a-f:]*:[0-9a-f:]*)$", h) is not None


def one(case, d):
    argv, env, addrs, fail = case
    for n in ("site", "other"):
        p = os.path.join(d, n)
        if not os.path.isdir(p):
            os.mkdir(p)
            open(p + "/id", "w").write("this is " + n)
    log = os.path.join(d, "log")
    if os.path.exists(log):
        os.unlink(log)
    e = dict(env)
    e.update({"LD_PRELOAD": BIN["net"], "NET_LOG": log, "ASAN_OPTIONS": "verify_asan_link_order=0:detect_leaks=0:exitcode=99", "UBSAN_OPTIONS": "exitcode=99"})
    want = reference(list(argv), env)
    if addrs is None and want[0] == "run" and not (numeric(want[1]) and want[2].isdigit()):
        addrs = "4"
    if addrs is not None:
        e["NET_ADDRS"] = addrs
    if fail:
        e["NET_FAIL"] = fail
    r = procs.run([BIN["exe"]] + list(argv), cwd=d, env=e, timeout=40)
    f = fields(log)
    err = r.err.decode("utf-8", "replace")
    bad = []
    w = "blogc-runserver %s (environment %s%s%s)" % (" ".join(repr(a) for a in argv), env, ", addresses " + addrs if addrs else "", ", failing " + fail if fail else "")
    if r.rc in (99, 124) or r.rc >= 128:
        return {"bad": ["%s: %s" % (w, "did not end" if r.rc == 124 else "crashed") + ": " + err[-700:]]}
    fw = fail.split()
    if want[0] == "run":
        n = len(addrs) if addrs is not None else 1
        ok = [i for i in range(n) if not any(x + str(i) in fw for x in "sob")]
        if "g" in fw or not ok or "l" in fw or n == 0 or want[3] not in ("site", "other"):
            st = "refused" if "g" in fw or not ok or "l" in fw or n == 0 else "odd root"
        else:
            st = "served"
        exp = ok[0] if ok else None
    else:
        st, exp = want[0], None
    if st in ("help", "version"):
        if r.rc != 0 or f:
            bad.append("exit %d, %r" % (r.rc, f))
        t = r.out.decode("utf-8", "replace")
        if st == "version" and not re.match(r"^blogc \S+\n$", t):
            bad.append("version shown as %r" % t)
        if st == "help" and not all(x in t for x in ("usage:", "-t HOST", "-p PORT", "-m THREADS", want[1], want[2])):
            bad.append("help without the defaults (%s, %s): %r" % (want[1], want[2], t))
    elif st == "error":
        if r.rc in (0, 77) or f or not err.strip():
            bad.append("a wrong command line gave exit %d, network %r, errors %r" % (r.rc, f, err[:200]))
    elif st == "refused":
        if r.rc in (0, 77) or "listen" in f or "accept" in f or not err.strip() or "Running" in err:
            bad.append("without an address that works: exit %d, network %r, errors %r" % (r.rc, f, err[:300]))
    if want[0] == "run" and st != "error":
        if [unhex(x) for x in f.get("host", [])] != [want[1].encode()] or [unhex(x) for x in f.get("port", [])] != [want[2].encode()]:
            bad.append("looked up %r port %r instead of %s port %s" % ([unhex(x) for x in f.get("host", [])], [unhex(x) for x in f.get("port", [])], want[1], want[2]))
    if st in ("served", "odd root") and not bad:
        ip = want[1] if addrs is None else "127.0.0.%d" % (10 + exp) if addrs[exp] == "4" else "fd00::%x" % (0xa0 + exp)
        port = re.match(r"^\d*", want[2]).group() or "0"
        if r.rc != 77 or f.get("listen") != [str(exp)] or f.get("accept") != [str(exp)]:
            bad.append("expected to serve at address %d: exit %d, network %r, errors %r" % (exp, r.rc, f, err[:300]))
        elif f.get("bind", ["?"])[-1] != "%d %s %s" % (exp, ip, port):
            bad.append("bound to %r instead of %s port %s" % (f.get("bind"), ip, port))
        elif st == "served" and not (unhex(f["answer"][0]) or b"").endswith(b"\r\n\r\nthis is " + want[3].encode()):
            bad.append("does not serve %s: %r" % (want[3], unhex(f["answer"][0])))
        elif len(want) > 5 and "warning" not in err:
            bad.append("no warning about the number of threads: %r" % err[:200])
        elif f.get("threads") != [str(want[4])]:
            bad.append("serves %s connections at once instead of %d" % (f.get("threads"), want[4]))
        else:
            url = "http://" + ("[%s]" % ip if ":" in ip else ip)
            if not (url + ":" + port + "/" in err or port == "80" and url + "/" in err):
                bad.append("is at %s port %s, but says: %r" % (ip, port, err[:200]))
    return {"bad": [w + ": " + b for b in bad], "state": (st,) + want[1:], "outcome": (st, r.rc, repr(sorted((k, v) for k, v in f.items() if k != "answer"))), "steps": sum(len(v) for v in f.values()) + 1, "tally": {st: 1}}


def cases(th):
    for n in range(0, 5 if th else 4):
        for w in itertools.product(WORDS, repeat=n):
            stop = next((i for i, a in enumerate(w) if a[:2] in ("-h", "-v", "-x") or a == "-"), None)
            if stop is not None and stop < n - 1 and (stop == 0 or w[stop - 1] not in ("-t", "-p", "-m")) and len(set(w[stop + 1:])) < n - stop - 1 + (n > 3):
                continue                    # nothing after it is looked at
            for e in ENVS if n < 3 else ENVS[:1] if n > 3 else (ENVS[0], ENVS[3]):
                if n == 4 and "site" not in w:
                    continue
                yield (w, e, None, "")
    for v in ["1", "2", "19", "20", "21", "100", "999", "1000", "1001", "1002", "-1", "10x", "x1", "0", "00", "18446744073709551617", "4294967297", "2147483648"]:
        for a in (("-m", v, "site"), ("-m" + v, "site"), ("site", "-m", v)):
            yield (a, ENVS[0], None, "")
    ways = ["", "s", "o", "b"]
    for n in range(1, 5 if th else 4):
        for fam in itertools.product("46", repeat=n):
            for w in itertools.product(ways, repeat=n):
                for l in ("", "l"):
                    yield (("-t", "name", "-p", "83", "-m", "2", "site"), {}, "".join(fam), " ".join(x + str(i) for i, x in enumerate(w) if x) + (" " if l else "") + l)
    yield (("-t", "name", "site"), {}, "4", "g")
    yield (("site",), {}, None, "g")
    for p in ("1", "80", "8080", "65535"):
        for fam in "46":
            yield (("-t", "name", "-p", p, "site"), {}, fam, "")
    for h in ("127.0.0.1", "0.0.0.0", "::1", "::", "127.1.2.3"):
        for p in ("80", "8080"):
            yield (("-t" + h, "-p" + p, "other"), {}, None, "")


def setup():
    BIN["exe"] = vrun.binaries("asan", ("blogc-runserver",))["blogc-runserver"]
    BIN["net"] = vrun.shim("net")


def main(tier):
    ck = vrun.Check("R05", tier)
    setup()
    ex = procs.Explorer(ck, one, "R05")
    ex.all(list(cases(tier == "thorough")), "command lines and addresses")
    ex.close()
    return ck.finish(RULE, inproc.ASSUME + ["sockets are stand-ins; that the real ones work is covered by R02, which also talks to the program over TCP"])


def replay(a):
    setup()
    return procs.replay(one, a)
