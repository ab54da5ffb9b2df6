// bm_exec_command: a child following every script up to the bound (shim/actor.c), every input size, every transfer limit and every single fault.
#include "mc.hpp"
#include <cerrno>
#include <poll.h>
extern "C" {
#define template template_
#include "blogc-make/exec.h"
#undef template
#include "common/error.h"
}
using mc::Ctx; using mc::Emit; using mc::Options;

// ---------------------------------------------------------------- system calls of the parent
static bool on; static size_t limit, calls, fault_at; static int fault_errno, in_child_of; static std::string trace_;
static bool hit(char kind, const char *kinds) {
    if (!on || getpid() != in_child_of) return false;
    if (!strchr(kinds, kind)) return false;
    calls++;
    if (calls == fault_at) { errno = fault_errno; return true; }
    return false;
}
static const char *kinds = "";
extern "C" {
ssize_t __real_read(int, void*, size_t); ssize_t __real_write(int, const void*, size_t); int __real_poll(struct pollfd*, nfds_t, int);
pid_t __real_waitpid(pid_t, int*, int); int __real_pipe(int*); pid_t __real_fork(void); int __real_pipe2(int*, int);
ssize_t __wrap_read(int fd, void *b, size_t n) { if (hit('r', kinds)) return -1; return __real_read(fd, b, on && limit && n > limit ? limit : n); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { if (hit('w', kinds)) return -1; return __real_write(fd, b, on && limit && n > limit ? limit : n); }
int __wrap_poll(struct pollfd *p, nfds_t n, int t) { if (hit('p', kinds)) return -1; return __real_poll(p, n, t); }
pid_t __wrap_waitpid(pid_t p, int *s, int f) { if (hit('W', kinds)) return -1; return __real_waitpid(p, s, f); }
int __wrap_pipe(int *p) { if (hit('P', kinds)) return -1; return __real_pipe(p); }
int __wrap_pipe2(int *p, int f) { if (hit('P', kinds)) return -1; return __real_pipe2(p, f); }
pid_t __wrap_fork(void) { if (hit('F', kinds)) return -1; return __real_fork(); }
}

static std::string dir, actor;
static std::string pattern(size_t n) { std::string s(n, 0); for (size_t i = 0; i < n; i++) s[i] = "abcdefghijklmnopqrstuvwxyz0123456789\n"[i % 37]; return s; }
static std::string input_(size_t n) { std::string s(n, 0); unsigned v = 7; for (size_t i = 0; i < n; i++) { v = v * 1664525u + 1013904223u; s[i] = 'A' + (v >> 24) % 50; } return s; }
static std::string fds() { std::string r; for (int i = 0; i < 80; i++) if (fcntl(i, F_GETFD) != -1) r += std::to_string(i) + " "; return r; }
static std::vector<std::string> split(const std::string &s) { std::vector<std::string> r(1); for (char c : s) if (c == ',') r.emplace_back(); else r.back() += c; return r; }
static std::string small(const char *s) { if (!s) return "(nothing)"; std::string t(s); return t.size() > 60 ? std::to_string(t.size()) + " bytes" : t; }

// fields: script, input size or -1, transfer limit, kinds of calls that fail, number of the failing call, its error
static void run(const std::string &c, Ctx &x) {
    auto f = mc::fields(c);
    auto ops = split(f[0]); long isz = atol(f[1].c_str());
    limit = atol(f[2].c_str());
    static std::string kk; kk = f[3]; kinds = kk.c_str(); fault_at = atol(f[4].c_str()); fault_errno = atol(f[5].c_str());
    // the reference
    size_t o = 0, e = 0, left = isz < 0 ? 0 : isz, got = 0, hash = 5381; bool ci = false, co = false, ce = false; int rc = 0;
    std::string in = input_(left);
    for (auto &t : ops) {
        long n = t.size() > 1 ? atol(t.c_str() + 1) : 0;
        if (t[0] == 'o' && !co) o += n;
        if (t[0] == 'e' && !ce) e += n;
        if ((t[0] == 'r' || t[0] == 'R') && !ci) { size_t k = t[0] == 'R' ? left : std::min<size_t>(left, n); got += k; left -= k; }
        if (t == "ci") ci = true;
        if (t == "co") co = true;
        if (t == "ce") ce = true;
        if (t[0] == 'x') rc = n & 255;
        if (t[0] == 'k') rc = 128 + n;
        x.state(std::to_string(o) + " " + std::to_string(e) + " " + std::to_string(left) + " " + std::to_string(ci * 4 + co * 2 + ce) + f[1] + f[2] + f[3] + f[4]);
    }
    for (size_t i = 0; i < got; i++) hash = hash * 33 + (unsigned char) in[i];
    x.trans(ops.size());

    std::string rep = dir + "/report";
    unlink(rep.c_str());
    std::string cmd = (f.size() > 6 ? f[6] : "exec ") + actor + " " + f[0] + " " + rep;
    std::string before = fds();
    char *out = nullptr, *err = nullptr; bc_error_t *error = nullptr;
    calls = 0; in_child_of = getpid(); on = true;
    int r = bm_exec_command(cmd.c_str(), isz < 0 ? nullptr : in.c_str(), &out, &err, &error);
    on = false;
    bool fault = fault_at && calls >= fault_at;
    bool reported = error != nullptr;
    std::string what = "child " + f[0] + " with " + (isz < 0 ? std::string("no") : f[1] + " bytes of") + " input" + (limit ? ", at most " + f[2] + " bytes at a time" : "") + (fault ? ", call " + f[4] + " of \"" + f[3] + "\" fails with " + strerror(fault_errno) : "") + ": ";
    std::string wo = pattern(o), we = pattern(e);
    bool same = r == rc && std::string(out ? out : "") == wo && std::string(err ? err : "") == we && !reported;
    if (reported && r == 0) x.fail(what + "error reported but status 0");
    if (reported && !(fault && fault_errno != EINTR)) x.fail(what + "error: " + error->msg);
    if (!reported && !(fault && fault_errno != EINTR && r != 0 && kk == "F")) {
        if (r != rc) x.fail(what + "status " + std::to_string(r) + " instead of " + std::to_string(rc));
        if (std::string(out ? out : "") != wo) x.fail(what + "standard output: " + small(out) + " instead of " + std::to_string(o) + " bytes");
        if (std::string(err ? err : "") != we) x.fail(what + "standard error: " + small(err) + " instead of " + std::to_string(e) + " bytes");
    }
    free(out); free(err); bc_error_free(error);
    if (!reported) {
        std::string got_ = mc::slurp(rep), want = std::to_string(got) + " " + std::to_string(hash) + "\n";
        if (got_ != want) x.fail(what + "the child has read \"" + mc::show(got_) + "\" instead of \"" + mc::show(want) + "\"");
        if (waitpid(-1, nullptr, WNOHANG) != -1) x.fail(what + "the child is left behind");
    } else for (int i = 0; i < 200 && waitpid(-1, nullptr, WNOHANG) != -1; i++) usleep(1000);
    std::string after = fds();
    if (after != before) x.fail(what + "open descriptors \"" + after + "\" instead of \"" + before + "\"");
    x.outcome(reported ? "reported" : std::to_string(r) + " " + std::to_string(o) + " " + std::to_string(e) + " " + std::to_string(got));
    x.count(reported ? "error reported" : fault ? "survived a fault" : "run");
    (void) same;
}
static void enumerate(Emit &e, const Options &opt) {
    bool th = opt.tier == "thorough";
    std::vector<std::string> ops = {"o3", "e3", "o70000", "e70000", "r2", "r70000", "R", "ci", "co", "ce"};
    std::vector<std::string> ends = {"", "x3", "x127", "x255", "k9", "k15", "k13"};
    std::vector<long> ins = {-1, 0, 5, 65536, 70000, 200000};
    auto scripts = [&](size_t n, const std::vector<std::string> &v, std::function<void(const std::string&)> f) {
        mc::each_word(v.size(), 0, n, [&](const std::vector<size_t> &ix) { if (e.stop) return; std::string s; for (size_t i : ix) s += (s.empty() ? "" : ",") + v[i]; f(s); });
    };
    auto with = [](const std::string &s, const std::string &end) { return s.empty() ? (end.empty() ? std::string("x0") : end) : end.empty() ? s : s + "," + end; };
    auto emit = [&](const std::string &s, long in, long lim = 0, const std::string &k = "", size_t at = 0, int er = 0, const std::string &pre = "exec ") { e.lazy([&] { return mc::join({s, std::to_string(in), std::to_string(lim), k, std::to_string(at), std::to_string(er), pre}); }); };
    // plain behaviours, every way to end
    scripts(2, ops, [&](const std::string &s) { for (auto &end : ends) for (long in : ins) emit(with(s, end), in); });
    e.mark("ends");
    scripts(th ? 5 : 4, ops, [&](const std::string &s) { for (long in : {70000L, 5L}) emit(with(s, "x3"), in); });
    if (th) scripts(4, ops, [&](const std::string &s) { for (long in : ins) emit(with(s, ""), in); });
    e.mark("scripts");
    // much data on every stream
    for (auto o : {"o1000000", "e1000000"}) for (auto p : {"o1000000", "e1000000", "R", "r100000", "co", "ce", "ci"}) for (auto q : {"o1000000", "e1000000", "R", "r100000"}) for (long in : {-1L, 70000L, 1000000L}) { emit(std::string(o) + "," + p + "," + q, in); emit(std::string(p) + "," + o + "," + q, in); emit(std::string(p) + "," + q + "," + o + ",x1", in); }
    e.mark("volumes");
    // sizes around the pipe capacity and the buffers
    for (long n : {1, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 131072}) for (auto k : {"o", "e", "r"}) for (long in : {-1L, n - 1, n, n + 1}) { if (in == 0) continue; emit(k + std::to_string(n), in); emit("R," + (k + std::to_string(n)), in); emit(k + std::to_string(n) + ",R,x2", in); }
    e.mark("sizes");
    // pauses: the child is slow or leaves while data is on its way
    std::vector<std::string> slow = {"p", "o3", "e70000", "r2", "R", "ci", "co", "ce"};
    scripts(th ? 4 : 3, slow, [&](const std::string &s) { if (s.find('p') != std::string::npos) for (long in : {5L, 70000L}) emit(with(s, "x3"), in); });
    e.mark("slow");
    // transfer limits
    scripts(3, ops, [&](const std::string &s) { for (long lim : {1000L, 4096L}) emit(with(s, "x3"), 70000, lim); });
    scripts(3, {"o3", "e3", "r2", "R", "ci", "co", "ce"}, [&](const std::string &s) { for (long lim : {1L, 2L}) emit(with(s, "x3"), 5, lim); });
    e.mark("limits");
    // a single call interrupted or failing
    scripts(2, ops, [&](const std::string &s) { for (long in : {-1L, 5L, 70000L}) for (size_t at = 1; at <= (th ? 24 : 10); at++) for (auto k : {"r", "w", "p", "W"}) emit(with(s, "x3"), in, 0, k, at, EINTR); });
    e.mark("interrupted");
    scripts(2, ops, [&](const std::string &s) { for (long in : {5L, 70000L}) for (size_t at = 1; at <= (th ? 24 : 8); at++) { for (auto k : {"r", "w"}) emit(with(s, "x3"), in, 0, k, at, EIO); emit(with(s, "x3"), in, 0, "p", at, ENOMEM); if (at <= 3) emit(with(s, "x3"), in, 0, "P", at, EMFILE); if (at == 1) emit(with(s, "x3"), in, 0, "F", at, EAGAIN); } });
    e.mark("failing");
    // the shell stays between
    scripts(2, ops, [&](const std::string &s) { for (long in : {5L, 70000L}) { emit(with(s, "x3"), in, 0, "", 0, 0, "FOO=bar "); emit(with(s, "x3"), in, 0, "", 0, 0, "true; "); emit(with(s, "x3"), in, 0, "", 0, 0, "true && "); } });
    e.mark("shell");
}
static void init() { dir = mc::scratch_dir(); actor = getenv("VERIF_ACTOR"); signal(SIGPIPE, SIG_DFL); }
int main(int argc, char **argv) { return mc::main_(argc, argv, {enumerate, run, init}); }
