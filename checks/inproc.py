"""Checks that consist of in-process explorers (harness/<name>.cpp) only."""
import json, os, subprocess, sys
import vrun

BLOGC = ["blogc", "common"]
WRAPS = ["-Wl," + ",".join("--wrap=" + f for f in ("getaddrinfo", "freeaddrinfo", "socket", "bind", "listen", "setsockopt", "accept", "accept4", "pthread_create", "pthread_join", "pthread_detach", "read", "recv", "write", "send", "writev", "sendmsg", "close"))]
WRAPS2 = ["-Wl," + ",".join("--wrap=" + f for f in ("getaddrinfo", "freeaddrinfo", "socket", "bind", "listen", "setsockopt", "accept", "accept4", "pthread_create", "pthread_join", "pthread_detach", "pthread_self", "pthread_mutex_lock", "pthread_mutex_unlock", "read", "recv", "write", "send", "writev", "sendmsg", "close", "shutdown", "poll"))]
WRAPS3 = ["-Wl," + ",".join("--wrap=" + f for f in ("read", "write", "poll", "waitpid", "pipe", "pipe2", "fork"))]
WRAPS4 = ["-Wl," + ",".join("--wrap=" + f for f in ("getrusage", "gethostname", "uname", "gethostbyname", "time", "clock_gettime", "gettimeofday", "fopen", "fopen64", "open", "open64"))]
# property: [(harness, components, args, rule)]
TABLE = {
    "B17": [dict(h="B17", variant="plain", c=BLOGC, ld=WRAPS4, bin={"VERIF_BLOGC": "blogc"}, rule="every use (9 forms x 6 variables), every two and three uses, under every definition by the user, every subset of what the system can tell, and resources that grow at every measurement, each rendered in a process of its own against a scripted system; host and user names of all lengths, all cgroup files over 9 pieces and the marker at every offset; every amount of CPU time and memory up to 2.1 (thorough 17) million and around every power of 2 and 10, dates from 1970 to 9999 in 3 time zones; then the program itself in 6 forms with every definition; compared with the template evaluator over what the system told")],
    "M05": [dict(h="M05", variant="plain", c=["blogc-make", "common"], ld=WRAPS3, tools={"VERIF_ACTOR": "actor"}, hang=15, rule="a scripted child run through bm_exec_command: all scripts of up to 4 (thorough 5) steps over 10 reads, writes and closes of sizes below and above the pipe capacity, all ways to end, 6 input sizes, megabytes on every stream, sizes around the buffers, slow children, transfer limits, every single call interrupted or failing; status, output, errors, what the child has read, open descriptors and left-over processes compared with a reference; a run that blocks is a hang")],
    "R03": [dict(h="R03", c=["blogc-runserver", "common"], ld=WRAPS2, traced=("blogc-runserver",), hang=300, rule="all schedules that differ from the default one in up to 2-3 (thorough 3-4) decisions at synchronising calls, for all client kinds (normal, split, aborted, silent, redirect, error, large) with up to 5 clients and 1-3 threads; all schedules with one deviation (thorough two) at any basic block of the server; all schedules of 1-2 (thorough 3) clients up to commuting independent steps (sleep sets)"),
            dict(h="R03", c=["blogc-runserver", "common"], ld=WRAPS2, traced=("blogc-runserver", "common"), hang=300, args=("--only", "all"), rule="and one deviation at any basic block of the server and the shared code")],
    "R02": [dict(h="R02", c=["blogc-runserver", "common"], ld=WRAPS, bin={"VERIF_RUNSERVER": "blogc-runserver"}, rule="all request lines over 10 methods, 110 targets, 6 versions and 6 endings; all byte and token words up to the bound; every byte value in every position; 10 document roots; every size around the buffer size; all splits into two and three pieces, every transfer limit, and every single transfer short, interrupted or failing; compared with a reference of the response; then the program itself over TCP with all targets, methods, truncations and splits")],
    "R01": [dict(h="R01", c=["blogc-runserver", "common"], ld=WRAPS, rule="all target words of up to 4 (thorough 5) tokens over 18 path tokens and further words over traversal and encoding tokens, 8+5 spellings of the document root, up to 23 levels up, and every layout of links (19 destinations for an entry and the index file; thorough: three links); real file trees whose outside files are marked; states are distinct (root, resolved path, situation)")],
    "R04": [dict(h="R04", c=["blogc-runserver", "common"], rule="URL decoding of all words over two escape alphabets up to the bound and of every pair of bytes after % in 9 contexts; extension and type of all path words over two alphabets up to the bound, and of every registered extension with all of its one-byte edits, in 5 positions; compared with reference readings")],
    "M09": [dict(h="M09", c=["blogc-make", "common"], rule="every way to give, omit, empty or blank the five required variables in five sections; variable names: all words up to the bound over 12 characters, every byte in every position of complete names, all lengths; every byte in values; every setting with every value, all pairs of settings (thorough: triples), with neighbours of their names; all pairs of lists of up to 2 items, all presence patterns of the five list sections, all lengths; [global] and [environment] beside each other; compared with a reading of blogcfile(5)")],
    "B16": [dict(h="B16", c=BLOGC, rule="all byte words up to 7 (thorough 9) over 8 significant bytes, all words of up to 5 (7) over names, comments, blanks and line endings, every byte in context, every length up to 2100 (9000); compared with a reference reader")],
    "B09": [dict(h="B09", c=BLOGC, rule="all lists of up to 5 (thorough 7) posts over 7 dates with every order setting, all lists of up to 3 (5) posts over 12 kinds (dates, tags, undated, invalid) with every filter, all list lengths up to 13 with 24 page and 21 page-size values, all spellings of the boolean settings; real files; listing and exported variables compared with a reference, pages checked to partition the listing")],
    "B08": [dict(h="B08", c=["blogc", "blogc-git-receiver", "blogc-runserver", "common"], ld=["-Wl,--allow-multiple-definition"], hang=30, rule="13 parsers: all token words up to the bound, every truncation, substitution, insertion and deletion of every byte value and all pairs of significant edits of complete inputs, and repetitions of all token pairs up to 1500 times; exact-size buffers under AddressSanitizer and UBSan, heap balance and result-or-error checked on every input")],
    "B07": [dict(h="B07", c=BLOGC, rule="every document of up to 4 (thorough 5) blocks over 12 kinds, separated or adjacent, all header level sequences up to 5 (7) with all depth options and definitions, with explicit definitions and all line endings, through the source parser; compared with the reference, anchors checked independently")],
    "B05": [dict(h="B05", c=BLOGC, rule="every document of up to 3 (thorough 4) lines over a 38-line vocabulary and 5 (6) lines over 13 lines, with LF, CR, CRLF and mixed endings, terminated or not; all byte words up to the bound; every truncation of a document with every kind of block; compared with a line-based reference, and composition laws (an empty line separates, a final line ending changes nothing) checked on all of them")],
    "B06": [dict(h="B06", c=BLOGC, rule="all byte words up to the bound over five markup alphabets and token words over five token sets, alone, inside links and inside bold; every byte value; compared with a recursive-descent reference, tag balance checked independently, leaks counted")],
    "B14": [dict(h="B14", c=BLOGC, rule="bc_error_parser on every text over {a,b,line ending} up to the bound with every offset and line-ending style; every combination of two valid prefixes, an erroneous line with a known offending character, and a tail, through the configuration, source and template parsers")],
    "B04": [dict(h="B04", c=BLOGC, rule="every file of up to 3 (thorough 4) lines over a 26-line vocabulary with LF, CR and CRLF, terminated or not; every byte word up to the bound at the start, after a key, and around the separator; every reserved name and its neighbours; every value/content/key length; every file name word; compared with a reference reader")],
    "B11": [dict(h="B11", c=["common"], rule="every file of up to 3 (thorough 5) lines over a 21-line vocabulary, alone and inside map and list sections, with LF, CR and CRLF, terminated or not; every truncation of a complete file with mixed endings; all byte words up to the bound; compared with a reference reader")],
    "B15": [dict(h="B15", c=["common"], rule="every history of map insertions over 8 keys, of list operations with sorts, and of buffer appends around the chunk size, and every string up to the bound through every string function; compared step by step with std::map, a vector and concatenation")],
    "B03": [dict(h="B03", c=BLOGC, rule="every name over 10 stems x 22 suffixes under every assignment (none/global/local/both) of values to the names that can decide it and every DATE_FORMAT placement, looked up directly in and outside of iterators and blocks and through a rendered template; all (length, N) truncations over 1-4 byte characters; all list values up to the bound")],
    "B10": [dict(h="B10", c=BLOGC, rule="every day of 1900-2100, every year, every hour/minute of a year in 5 time zones, every prefix, byte substitution, insertion and deletion of complete dates, all pairs of significant edits and all short words; compared with a calendar that counts days")],
    "B02": [dict(h="B02", c=BLOGC, rule="all statement words, their truncations at every byte, all token edits (1-3) of complete statements and all byte words up to the bound; acceptance compared with a stack acceptor, accepted ones rendered in 3 environments and compared with the evaluator")],
    "B01": [dict(h="B01", c=BLOGC, rule="all template trees of at most N nodes over nine vocabularies (control flow, nesting, scopes, comparisons, whitespace control), each rendered in 5 environments and compared with a recursive evaluator; states are distinct (environment, output) pairs of the evaluator, outcomes distinct outputs of the program")],
}
ASSUME = ["gcc 13 with -O1, AddressSanitizer and UBSan; glibc; LC_ALL=C, TZ=UTC",
          "the reference model in the harness states the property (it was written from the manual pages)"]


def bins(ent):
    b = ent.get("bin") or {}
    r = vrun.binaries("plain", tuple(b.values())) if b else {}
    e = {k: r[v] for k, v in b.items()}
    for k, v in (ent.get("tools") or {}).items():
        e[k] = vrun.tool(v)
    return e


def main(pid, tier):
    ck = vrun.Check(pid, tier)
    rules = []
    for ent in TABLE[pid]:
        exe = vrun.harness(ent["h"], ent["c"], ent.get("variant", "asan"), ldflags=ent.get("ld", ()), traced=ent.get("traced", ()))
        ck.run_harness(exe, ent.get("args", ()), hang=ent.get("hang", 20), env=bins(ent))
        rules.append(ent["rule"])
    return ck.finish("; ".join(rules), ASSUME)


def replay(a):
    pid = a["property"]
    for ent in TABLE[pid]:
        if a["harness"] in ("h_" + ent["h"], "h_%s_%d" % (ent["h"], len(ent.get("traced", ())))) and list(a.get("args", ())) == list(ent.get("args", ())):
            exe = vrun.harness(ent["h"], ent["c"], ent.get("variant", "asan"), ldflags=ent.get("ld", ()), traced=ent.get("traced", ()))
            p = os.path.join(vrun.BUILD, "replay.hex")
            open(p, "w").write(a["hex"])
            import procs
            e = dict(os.environ, VERIF_SCRATCH=procs.scratch("replay"), TZ="UTC", LC_ALL="C", ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1", **bins(ent))
            return subprocess.run([exe, "--replay", p] + list(a.get("args", ())), env=e).returncode
    return 2
