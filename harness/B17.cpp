// Variables blogc provides by itself: value, availability, caching, and precedence, in every position of a template.
#include "tmplref.hpp"
#include <netdb.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/utsname.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sstream>
#include <functional>
extern "C" {
#include "blogc/rusage.h"
#include "blogc/sysinfo.h"
}
using namespace tr;
using mc::Ctx; using mc::Emit; using mc::Options; typedef std::string S; typedef std::vector<S> V;
// ---- the world the program asks; outside of a case the real one answers ----
struct World {
    bool active = false; S host = "-", canon = "-", login = "-", cgroup = "-"; long long time = -1, cpu = -1, mem = 0, stepc = 0, stepm = 0, split = 0;
    long calls = 0; S cgpath;
    long long cpu_at(long k) const { return cpu + k * stepc; }
    long long mem_at(long k) const { return mem + k * stepm; }
};
static World W;
extern "C" {
int __real_getrusage(int, struct rusage*); int __real_gethostname(char*, size_t); int __real_uname(struct utsname*); struct hostent *__real_gethostbyname(const char*);
time_t __real_time(time_t*); int __real_clock_gettime(clockid_t, struct timespec*); int __real_gettimeofday(struct timeval*, void*);
FILE *__real_fopen(const char*, const char*); FILE *__real_fopen64(const char*, const char*); int __real_open(const char*, int, ...); int __real_open64(const char*, int, ...);
int __wrap_getrusage(int who, struct rusage *u) {
    if (!W.active) return __real_getrusage(who, u);
    memset(u, 0, sizeof *u);
    if (W.cpu < 0) { errno = EINVAL; return -1; }
    long k = W.calls++; long long c = W.cpu_at(k), a = c * W.split / 4, b = c - a;    // user and system time add up to c
    if (who != RUSAGE_SELF) a = b = 0;
    u->ru_utime.tv_sec = a / 1000000; u->ru_utime.tv_usec = a % 1000000; u->ru_stime.tv_sec = b / 1000000; u->ru_stime.tv_usec = b % 1000000; u->ru_maxrss = who == RUSAGE_SELF ? W.mem_at(k) : 0;
    return 0;
}
int __wrap_gethostname(char *b, size_t n) {
    if (!W.active) return __real_gethostname(b, n);
    if (W.host == "-") { errno = EFAULT; return -1; }
    if (W.host.size() + 1 > n) { memcpy(b, W.host.data(), n); errno = ENAMETOOLONG; return -1; }
    memcpy(b, W.host.c_str(), W.host.size() + 1); return 0;
}
int __wrap_uname(struct utsname *u) {
    if (!W.active) return __real_uname(u);
    if (W.host == "-") { errno = EFAULT; return -1; }
    memset(u, 0, sizeof *u); snprintf(u->nodename, sizeof u->nodename, "%s", W.host.c_str()); return 0;
}
struct hostent *__wrap_gethostbyname(const char *n) {
    if (!W.active) return __real_gethostbyname(n);
    static struct hostent h; static char buf[2048];
    if (W.canon == "-" || n != W.host) return nullptr;
    snprintf(buf, sizeof buf, "%s", W.canon.c_str()); h.h_name = W.canon == "null" ? nullptr : buf; return &h;
}
time_t __wrap_time(time_t *t) { if (!W.active) return __real_time(t); if (t) *t = W.time; return W.time; }
int __wrap_clock_gettime(clockid_t c, struct timespec *t) { if (!W.active || c != CLOCK_REALTIME) return __real_clock_gettime(c, t); if (W.time == -1) { errno = EINVAL; return -1; } t->tv_sec = W.time; t->tv_nsec = 999999999; return 0; }
int __wrap_gettimeofday(struct timeval *t, void *z) { if (!W.active) return __real_gettimeofday(t, z); if (W.time == -1) { errno = EINVAL; return -1; } t->tv_sec = W.time; t->tv_usec = 999999; return 0; }
static const char *redirect(const char *p) { return W.active && p && !strcmp(p, "/proc/1/cgroup") ? W.cgpath.c_str() : p; }
FILE *__wrap_fopen(const char *p, const char *m) { return __real_fopen(redirect(p), m); }
FILE *__wrap_fopen64(const char *p, const char *m) { return __real_fopen64(redirect(p), m); }
int __wrap_open(const char *p, int f, ...) { va_list v; va_start(v, f); int m = va_arg(v, int); va_end(v); return __real_open(redirect(p), f, m); }
int __wrap_open64(const char *p, int f, ...) { va_list v; va_start(v, f); int m = va_arg(v, int); va_end(v); return __real_open64(redirect(p), f, m); }
}
static S scratch() { static S d; if (d.empty()) { const char *p = getenv("VERIF_SCRATCH"); d = S(p ? p : "/tmp") + "/b17." + std::to_string(getpid()); mkdir(d.c_str(), 0755); W.cgpath = d + "/cgroup"; } return d; }
static void load(const V &f) {     // host canon login cgroup time cpu mem stepc stepm split
    scratch(); W.host = f[0]; W.canon = f[1]; W.login = f[2]; W.cgroup = f[3]; W.time = atoll(f[4].c_str()); W.cpu = atoll(f[5].c_str()); W.mem = atoll(f[6].c_str()); W.stepc = atoll(f[7].c_str()); W.stepm = atoll(f[8].c_str()); W.split = atoll(f[9].c_str()); W.calls = 0;
    static S last = "\x01"; static bool first = true;
    if (first || W.cgroup != last) { last = W.cgroup; first = false; unlink(W.cgpath.c_str()); if (last != "-") { FILE *o = __real_fopen(W.cgpath.c_str(), "w"); fwrite(last.data(), 1, last.size(), o); fclose(o); } }
    if (W.login == "-") unsetenv("LOGNAME"); else setenv("LOGNAME", W.login.c_str(), 1);
}
// ---- reference ----
static S num(long long v, long long unit, const char *suffix) { char b[64]; snprintf(b, sizeof b, "%.3f%s", (double) v / unit, suffix); return b; }
static S cpu_text(long long t) { return t >= 1000000 ? num(t, 1000000, "s") : t >= 1000 ? t % 1000 ? num(t, 1000, "ms") : std::to_string(t / 1000) + "ms" : std::to_string(t) + "us"; }
static S mem_text(long long k) { return k >= 1048576 ? num(k, 1048576, "GB") : k >= 1024 ? num(k, 1024, "MB") : std::to_string(k) + "KB"; }
// equal up to the precision of the last digit (values with more than 24 significant bits are not exact)
static bool close_to(const S &got, const S &want, long long v, long long unit) {
    if (got == want) return true;
    size_t a = got.find_first_not_of("0123456789."), b = want.find_first_not_of("0123456789.");
    if (a == S::npos || b == S::npos || got.substr(a) != want.substr(b) || v < (1 << 24)) return false;
    size_t d = got.find('.'), e = want.find('.'); if (d == S::npos || e == S::npos || a - d != b - e) return false;
    return std::abs(atof(got.c_str()) - (double) v / unit) <= 0.00051 + (double) v / unit / (1 << 23);
}
static S date_text(long long t) {
    long long day = t / 86400, s = t % 86400; if (s < 0) { s += 86400; day--; }
    int y = 1970; while (day < 0) { y--; day += dr::leap(y) ? 366 : 365; } while (day >= (dr::leap(y) ? 366 : 365)) { day -= dr::leap(y) ? 366 : 365; y++; }
    int m = 1; while (day >= dr::mdays(y, m)) { day -= dr::mdays(y, m); m++; }
    char b[64]; snprintf(b, sizeof b, "%04d-%02d-%02d %02d:%02d:%02d", y, m, (int) day + 1, (int) (s / 3600), (int) (s / 60 % 60), (int) (s % 60)); return b;
}
static const V NAMES = {"BLOGC_RUSAGE_CPU_TIME", "BLOGC_RUSAGE_MEMORY", "BLOGC_SYSINFO_HOSTNAME", "BLOGC_SYSINFO_USERNAME", "BLOGC_SYSINFO_DATETIME", "BLOGC_SYSINFO_INSIDE_DOCKER"};
static S hostname() { return W.canon != "-" && W.canon != "null" ? W.canon : W.host; }
static void provide(Map &g, long kc, long km) {    // what the user defined stays
    Map b;
    if (W.cpu >= 0) { b[NAMES[0]] = cpu_text(W.cpu_at(kc)); b[NAMES[1]] = mem_text(W.mem_at(km)); }
    if (W.host != "-") b[NAMES[2]] = hostname();
    if (W.login != "-") b[NAMES[3]] = W.login;
    if (W.time != -1) b[NAMES[4]] = date_text(W.time);
    if (W.cgroup != "-" && S(W.cgroup.c_str()).find("/docker/") != S::npos) b[NAMES[5]] = "1";
    for (auto &p : b) g.insert(p);
}
// ---- one process: parse and render under the world ----
static const int NU = 9;
static Node T(const S &n) { Node x; x.kind = 't'; x.a = n; return x; }
static Node VN(const S &n) { Node x; x.kind = 'v'; x.a = n; return x; }
static Node C(char k, const S &n, const S &op = "", const S &b = "") { Node x; x.kind = k; x.a = n; x.op = op; x.b = b; x.body = {T("1")}; x.els = {T("0")}; x.has_else = true; return x; }
static Node use(int k, const S &n, const S &val) {
    Node x;
    switch (k) {
        case 0: return VN(n);
        case 1: return C('d', n);
        case 2: return C('n', n);
        case 3: return C('c', n, "==", "\"" + val + "\"");
        case 4: return C('c', n, "<=", n);
        case 5: x.kind = 'f'; x.a = n; x.body = {T("<"), VN("FOREACH_ITEM"), T(">")}; return x;
        case 6: return VN(n + "_3");
        case 7: x.kind = 'b'; x.a = "entry"; x.body = {T("("), VN(n), T(")")}; return x;
        default: x = C('d', "UNDEFINED"); x.body = {VN(n)}; return x;
    }
}
static char *shared() { static char *p; if (!p) p = (char*) mmap(nullptr, 1 << 16, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); return p; }
static bool isolated(const std::function<S()> &f, S &out, long &calls, Ctx &x) {
    char *m = shared(); *(long*) m = -1; fflush(nullptr);
    pid_t p = fork();
    if (!p) { W.active = true; S s = f(); W.active = false; snprintf(m + 16, (1 << 16) - 16, "%s", s.c_str()); *(long*) m = W.calls; _exit(0); }
    int st; waitpid(p, &st, 0); x.trans();
    if (!WIFEXITED(st) || WEXITSTATUS(st) || *(long*) m < 0) { x.fail("rendering ended with status " + std::to_string(st)); return false; }
    calls = *(long*) m; out = m + 16; return true;
}
static void templ(const V &f, Ctx &x) {            // T world(10) defs word
    load(V(f.begin() + 1, f.begin() + 11));
    const S &defs = f[11], &word = f[12];
    Env e; e.listing = false; e.sources.resize(1); e.sources[0]["TITLE"] = "t";
    for (int i = 0; i < 6; i++) { if (defs[i] == 'g' || defs[i] == 'b') e.global[NAMES[i]] = "gl ob" + S(1, '0' + i); if (defs[i] == 'l' || defs[i] == 'b') e.sources[0][NAMES[i]] = "lo cal" + S(1, '0' + i); }
    Map vals; provide(vals, 0, 0);
    std::vector<Node> t;
    for (size_t i = 0; i < word.size(); i++) { int k = word[i] - '0'; t.push_back(T("|")); t.push_back(use(k % NU, NAMES[k / NU], vals.count(NAMES[k / NU]) ? vals[NAMES[k / NU]] : "none")); }
    S src = print(t), got; long calls = 0;
    if (!isolated([&] { S err; bc_slist_t *ast = real_parse(src, err); if (!err.empty()) return "!" + err; S r = real_render(ast, e); return r; }, got, calls, x)) return;
    long n = W.stepc || W.stepm ? std::max(calls, 1L) : 1; S first; bool ok = false;
    for (long a = 0; a < n && !ok; a++) for (long b = 0; b < n && !ok; b++) { Env w = e; provide(w.global, a, b); uint64_t st = 0; S want = tr::want(t, w, got, st); x.trans(st); if (first.empty()) first = want; ok = want == got; }
    x.state(first); x.outcome(got); x.count(defs == "nnnnnn" ? "provided" : "partly defined by the user");
    if (!ok) x.fail("template " + mc::show(src) + " definitions " + defs + ": got \"" + mc::show(got) + "\" want \"" + mc::show(first) + "\"");
}
static void chunk(const V &f, Ctx &x) {            // c/m/t lo hi step [tz]
    long long lo = atoll(f[1].c_str()), hi = atoll(f[2].c_str()), st = atoll(f[3].c_str());
    if (f[0] == "t") { setenv("TZ", f[4].c_str(), 1); tzset(); }
    for (long long v = lo; v < hi && !x.bad; v += st) {
        S got, want; bool ok; char *r;
        if (f[0] == "c") { r = blogc_rusage_format_cpu_time(v); got = r ? r : "(null)"; want = cpu_text(v); ok = close_to(got, want, v, 1000000); }
        else if (f[0] == "m") { r = blogc_rusage_format_memory((long) v); got = r ? r : "(null)"; want = mem_text(v); ok = close_to(got, want, v, v >= 1048576 ? 1048576 : 1024); }
        else { W.time = v; W.active = true; r = blogc_sysinfo_get_datetime(); W.active = false; got = r ? r : "(null)"; want = date_text(v); ok = got == want; }
        free(r); x.trans(); if ((v / st) % 97 == 0) x.state(got);
        if (!ok) x.fail(S(f[0] == "c" ? "CPU time of " : f[0] == "m" ? "memory of " : "date of ") + std::to_string(v) + (f[0] == "t" ? " in time zone " + f[4] : "") + ": got " + got + " want " + want);
    }
    if (f[0] == "t") { setenv("TZ", "UTC", 1); tzset(); }
    x.outcome(f[0] + f[1]); x.count(f[0] == "c" ? "CPU times" : f[0] == "m" ? "memory sizes" : "dates");
}
static S sh(const S &cmd, int *rc = nullptr) { S r; FILE *p = popen(cmd.c_str(), "r"); char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, p)) > 0) r.append(b, n); int st = pclose(p); if (rc) *rc = WIFEXITED(st) ? WEXITSTATUS(st) : 128; return r; }
static void prog(const V &f, Ctx &x) {             // the installed program under the real world
    const char *bin = getenv("VERIF_BLOGC"); if (!bin) { printf("no program\n"); abort(); }
    int n = atoi(f[1].c_str()), form = n % 6, def = n / 6 % 4, var = n / 24;      // var: -1.. NAMES + version
    S d = scratch(), name = var < 6 ? NAMES[var] : "BLOGC_VERSION", src = "TITLE: x\n" + S(def & 2 ? name + ": local value\n" : "") + "---\nx\n";
    FILE *o = fopen((d + "/s").c_str(), "w"); fputs(src.c_str(), o); fclose(o);
    const char *forms[] = {"{{ %s }}", "{%% block entry %%}{{ %s }}{%% endblock %%}", "{%% ifdef %s %%}yes{%% else %%}no{%% endif %%}", "{%% foreach %s %%}<{{ FOREACH_ITEM }}>{%% endforeach %%}", "{{ %s_2 }}", ""};
    char t[512]; snprintf(t, sizeof t, forms[form], name.c_str()); o = fopen((d + "/t").c_str(), "w"); fputs(t, o); fclose(o);
    S pre = "cd " + d + " && " + (f[2] == "-" ? "env -u LOGNAME " : "LOGNAME='" + f[2] + "' "), D = def & 1 ? " -D '" + name + "=global value'" : "";
    long long t0 = ::time(nullptr); S ver = sh(S(bin) + " -v"); int rc;
    S got = sh(pre + bin + D + (form == 5 ? " -p " + name : S(" -t t")) + " s 2>err", &rc);
    long long t1 = ::time(nullptr);
    bool local = form == 1 || form == 5; S val = def & 2 && local ? "local value" : def & 1 ? "global value" : ""; bool builtin = val.empty(), avail = true;
    if (form == 5 && !got.empty()) got.pop_back();
    char hn[256] = ""; gethostname(hn, sizeof hn);
    V wants;
    if (!builtin) wants = {val};
    else if (var == 6) wants = {ver.substr(ver.find(' ') + 1, ver.find('\n') - ver.find(' ') - 1)};
    else if (var == 2) { struct hostent *h = gethostbyname(hn); wants = {h && h->h_name ? h->h_name : hn}; }
    else if (var == 3) { if (f[2] == "-") avail = false; else wants = {f[2]}; }
    else if (var == 4) for (long long k = t0; k <= t1; k++) wants.push_back(date_text(k));
    else if (var == 5) { S c = sh("cat /proc/1/cgroup"); if (c.find("/docker/") == S::npos) avail = false; else wants = {"1"}; }
    else { // a measurement: shape only
        const char *units[] = {"us", "ms", "s", "KB", "MB", "GB"}; if (form == 0 || form == 1 || form == 5 || form == 3) {
            S g = form == 3 && got.size() > 2 ? got.substr(1, got.size() - 2) : got; size_t k = g.find_first_not_of("0123456789."); bool ok = k != S::npos && k > 0 && atof(g.c_str()) > 0; if (ok) { ok = false; for (int u = var * 3; u < var * 3 + 3; u++) ok |= g.substr(k) == units[u]; }
            x.state("shape"); x.trans(); x.outcome("measured"); if (!ok || rc) x.fail(name + " printed by the program as \"" + mc::show(got) + "\""); return; }
        if (form == 2) wants = {"x"}; else { x.outcome("short"); return; }
    }
    bool ok = false; S last;
    if (!avail) wants = {""};
    for (auto &w : wants) {
        last = w;
        if (form == 2) last = avail ? "yes" : "no";
        if (form == 3) { last.clear(); std::istringstream is(w); S i; while (is >> i) last += "<" + i + ">"; }
        if (form == 4) last = w.substr(0, 2);
        ok |= got == last;
    }
    if (form == 5 && !avail) ok = got.empty() && rc == 78; else if (rc) ok = false;
    x.trans(); x.state(last); x.outcome(got); x.count("program runs");
    if (!ok) x.fail("blogc" + D + " with " + mc::show(form == 5 ? "-p " + name : S(t)) + (def & 2 ? " and a source that defines it" : "") + ", LOGNAME " + f[2] + ": got \"" + mc::show(got) + "\" (status " + std::to_string(rc) + ") want \"" + mc::show(last) + "\"");
}
static void run(const S &c, Ctx &x) { V f = mc::fields(c); if (f[0] == "T") templ(f, x); else if (f[0] == "P") prog(f, x); else chunk(f, x); }

static void enumerate(Emit &e, const Options &o) {
    bool th = o.tier == "thorough";
    const V full = {"box", "-", "ann", "1:name=systemd:/docker/abc\n", "1549836000", "12345", "1234", "0", "0", "1"}, none = {"-", "-", "-", "-", "-1", "-1", "0", "0", "0", "0"};
    auto with = [](V w, int k, const S &v) { w[k] = v; return w; };
    auto emit = [&](const V &w, const S &defs, const S &word) { e.lazy([&] { V f = {"T"}; f.insert(f.end(), w.begin(), w.end()); f.push_back(defs); f.push_back(word); return mc::join(f); }); };
    auto code = [](size_t u) { return S(1, (char) ('0' + u)); };     // variable * NU + form
    V defs = {"nnnnnn", "gggggg", "llllll", "bbbbbb"};
    for (int i = 0; i < 6; i++) for (char c : {'g', 'l', 'b'}) { S s = "nnnnnn"; s[i] = c; defs.push_back(s); }
    // every use, and every two uses, under every definition
    for (auto &w : {full, none}) for (auto &d : defs) mc::each_word(6 * NU, 1, 2, [&](const std::vector<size_t> &ix) { if (e.stop) return; if (ix.size() == 2 && &w != nullptr && w[0] == "-" && d != "nnnnnn" && !th) return; S s; for (size_t k : ix) s += code(k); emit(w, d, s); });
    e.mark("uses and pairs of uses");
    // every subset of what the system can tell
    for (int m = 0; m < 64; m++) for (auto &d : {S("nnnnnn"), S("gggggg"), S("llllll")}) for (size_t u = 0; u < 6 * NU; u++) {
        V w = full; const int field[] = {0, 1, 2, 3, 4, 5}; for (int b = 0; b < 6; b++) if (b == 1 ? m >> b & 1 : !(m >> b & 1)) w[field[b]] = b == 1 ? "box.example.org" : none[field[b]];
        emit(w, d, code(u)); }
    e.mark("availability");
    // three uses
    mc::each_word(6 * NU, 3, 3, [&](const std::vector<size_t> &ix) { if (e.stop) return; if (!th && (ix[0] / NU > 1 || ix[1] / NU > 1) && ix[0] / NU != ix[2] / NU) return; S s; for (size_t k : ix) s += code(k); emit(full, "nnnnnn", s); });
    e.mark("three uses");
    // resources that grow at every measurement: each is measured once
    for (const char *d : {"nnnnnn", "gnnnnn", "ngnnnn", "lnnnnn", "nlnnnn", "glnnnn"}) mc::each_word(2 * NU, 1, th ? 4 : 3, [&](const std::vector<size_t> &ix) { if (e.stop) return; S s; for (size_t k : ix) s += code(k); emit(with(with(full, 7, "1001"), 8, "333"), d, s); });
    e.mark("growing resources");
    // values
    for (int sp = 0; sp < 5; sp++) for (long long c : {0LL, 1LL, 999LL, 1000LL, 1001LL, 1999LL, 2000LL, 999999LL, 1000000LL, 1000001LL, 1500000LL, 59999999LL, 60000000LL, 3600000000LL, 16777216LL, 86400000000LL}) for (const char *m : {"0", "1", "1023", "1024", "1025", "1048575", "1048576", "16777216", "33554432"})
        for (size_t u : {0, 9, 3, 12}) emit(with(with(with(full, 5, std::to_string(c)), 6, m), 9, std::to_string(sp)), "nnnnnn", code(u));
    V hosts; for (int n = 1; n <= 64; n++) hosts.push_back(S(n, 'h')); for (int n : {253, 255, 256, 1000, 1022, 1023}) hosts.push_back(S(n, 'h')); hosts.push_back("a.b.c"); hosts.push_back("a-b_c"); hosts.push_back("UPPER"); hosts.push_back("h\xc3\xa9");
    for (auto &h : hosts) for (const S &c : {S("-"), S("null"), h, h + ".example.org", S("other")}) for (size_t f : {0, 1, 5, 6}) emit(with(with(full, 0, h), 1, c), "nnnnnn", code(2 * NU + f));
    V users = {"a", "x y", "", " ", "d\xc3\xa9\xc3\xa9", "{{ TITLE }}", "root", "%s%n", "\"q\"", "<b>"}; for (int n = 1; n <= 300; n += th ? 1 : 7) users.push_back(S(n, 'u'));
    for (auto &u : users) for (size_t f = 0; f < NU; f++) if (f != 3 || u.find('"') == S::npos) emit(with(full, 2, u), "nnnnnn", code(3 * NU + f));
    e.mark("values");
    // /proc/1/cgroup: every word of pieces, and the marker at every offset
    const V cg = {"/docker/", "/docker", "docker/", "0::/\n", "1:cpu:", "\n", "/", "a", "/Docker/", S("\0", 1).c_str()};
    mc::each_word(9, 0, th ? 5 : 4, [&](const std::vector<size_t> &ix) { if (e.stop) return; S s; for (size_t k : ix) s += cg[k]; emit(with(full, 3, s), "nnnnnn", code(5 * NU)); });
    for (int n = 0; n <= (th ? 9000 : 4200); n++) emit(with(full, 3, S(n, 'x') + "/docker/" + S(n % 3, 'y')), "nnnnnn", code(5 * NU));
    for (int n = 0; n <= 2100; n += 3) emit(with(full, 3, S(n, 'x') + "/docker"), "nnnnnn", code(5 * NU));
    e.mark("container");
    // how amounts and dates are written
    auto chunks = [&](const char *k, long long lo, long long hi, long long st, const S &tz = "") { for (long long a = lo; a < hi; a += st * 2000) e.lazy([&] { return mc::join({k, std::to_string(a), std::to_string(std::min(hi, a + st * 2000)), std::to_string(st), tz}); }); };
    chunks("c", 0, th ? 17000000 : 2100000, 1); chunks("c", 2100000, 100000000, th ? 37 : 997); for (long long b = 1; b < 4000000000000LL; b *= 10) chunks("c", std::max(0LL, b - 1000), b + 1000, 1); for (int s = 24; s < 43; s++) chunks("c", (1LL << s) - 500, (1LL << s) + 500, 1);
    chunks("m", 0, th ? 17000000 : 2100000, 1); chunks("m", 2100000, 200000000, th ? 37 : 997); for (int s = 10; s < 41; s++) chunks("m", (1LL << s) - 500, (1LL << s) + 500, 1);
    e.mark("amounts");
    for (const S &tz : {S("UTC"), S("EST5EDT"), S("XXX-13:45")}) { chunks("t", 0, 4102444800LL, tz == "UTC" ? 86399 / (th ? 8 : 1) : 86400 * 3 + 7, tz); chunks("t", 1577836800LL - 90000, 1577836800LL + 90000, 1, tz); chunks("t", 951782400LL - 90000, 951782400LL + 180000, th ? 1 : 13, tz); }
    chunks("t", 4102444800LL, 253402300800LL, 86400LL * 29 + 4799, "UTC");
    e.mark("dates");
    // (a source may not define BLOGC_VERSION)
    for (int n = 0; n < 24 * 7; n++) for (const char *u : {"-", "ann", "x y", "root"}) { if ((n / 24 != 3 && strcmp(u, "ann")) || (n / 24 == 6 && n / 6 % 4 & 2)) continue; e.lazy([&] { return mc::join({"P", std::to_string(n), u}); }); }
    e.mark("the program");
}
int main(int argc, char **argv) { return mc::main_(argc, argv, {enumerate, run}); }
