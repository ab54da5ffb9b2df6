// Bounded exhaustive exploration engine.
//
// A harness enumerates cases (strings) in a fixed order and runs each of them on the real code. The engine shards the
// enumeration over forked workers, notices crashes, sanitizer reports and hangs (the case being run is kept in shared
// memory), counts distinct model states and outcomes, and writes one JSON result.
#pragma once
#include <string>
#include <vector>
#include <functional>
#include <unordered_set>
#include <map>
#include <set>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <ctime>
#include <csignal>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>

#include <array>
#ifdef __SANITIZE_ADDRESS__
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#else
static inline size_t __sanitizer_get_current_allocated_bytes() { return 0; }
#endif

namespace mc {

inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

inline uint64_t hash(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
    const unsigned char *b = (const unsigned char*) p;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
    return h ^ (h >> 29);
}
inline uint64_t hash(const std::string &s, uint64_t h = 1469598103934665603ull) { return hash(s.data(), s.size(), h); }

inline std::string hex(const std::string &s) {
    static const char *d = "0123456789abcdef"; std::string r;
    for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
    return r;
}
inline std::string unhex(const std::string &s) {
    std::string r;
    auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
    for (size_t i = 0; i + 1 < s.size(); i += 2) r += (char) (v(s[i]) * 16 + v(s[i + 1]));
    return r;
}
inline std::string show(const std::string &s, size_t max = 600) {
    std::string r;
    for (unsigned char c : s) {
        if (r.size() > max) { r += "..."; break; }
        if (c == '\n') r += "\\n"; else if (c == '\r') r += "\\r"; else if (c == '\t') r += "\\t";
        else if (c == '\\') r += "\\\\";
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
        else r += c;
    }
    return r;
}
inline std::string jstr(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
// case fields are joined with \x1f
inline std::string join(const std::vector<std::string> &v) {
    std::string r; for (size_t i = 0; i < v.size(); i++) { if (i) r += '\x1f'; r += v[i]; } return r;
}
inline std::vector<std::string> fields(const std::string &s) {
    std::vector<std::string> r(1);
    for (char c : s) { if (c == '\x1f') r.emplace_back(); else r.back() += c; }
    return r;
}

struct Shm {
    volatile uint64_t index;       // index of the case being run
    volatile uint64_t beat;        // changes at every case
    volatile int running;
    volatile size_t len;
    volatile int truncated;
    volatile int done;
    char data[1 << 20];
};

struct Ctx {
    uint64_t cases = 0, transitions = 0, validated = 0;
    std::unordered_set<uint64_t> states, outcomes;
    std::vector<std::pair<std::string, std::string>> samples;     // case, outcome
    std::vector<std::pair<std::string, std::string>> violations;  // case, message
    std::map<std::string, uint64_t> tally;
    std::string cur, last_outcome;
    size_t max_violations = 10;
    bool replaying = false;
    void state(uint64_t h) { if (states.size() < 4000000) states.insert(h); }
    void state(const std::string &s) { state(hash(s)); }
    void trans(uint64_t n = 1) { transitions += n; }
    void outcome(const std::string &s) { if (outcomes.size() < 4000000) outcomes.insert(hash(s)); last_outcome = s.substr(0, 400); }
    void count(const std::string &k, uint64_t n = 1) { tally[k] += n; }
    bool bad = false;
    void fail(const std::string &msg) {
        bad = true;
        if (replaying) printf("FAIL: %s\n", msg.c_str());
        if (violations.size() < max_violations) violations.emplace_back(cur, msg);
    }
    // compare helper
    bool eq(const std::string &what, const std::string &got, const std::string &want) {
        if (got == want) return true;
        fail(what + ": got \"" + show(got) + "\" want \"" + show(want) + "\"");
        return false;
    }
};

struct Emit {
    Ctx *x; Shm *shm; int id, n; uint64_t next_index = 0, resume = 0; double deadline; bool stop = false;
    std::function<void(const std::string&, Ctx&)> run;
    uint64_t countdown = 0;
    // true if the next case belongs to this worker; then exec() must follow
    bool want() {
        uint64_t i = next_index++;
        if (stop || i < resume) return false;
        return (int) (i % n) == id;
    }
    void exec(const std::string &c) {
        if ((++countdown & 63) == 0 && now() > deadline) { stop = true; shm->truncated = 1; return; }
        size_t l = std::min(c.size(), sizeof shm->data);
        shm->index = next_index - 1; shm->len = l; memcpy((void*) shm->data, c.data(), l);
        shm->beat++; shm->running = 1;
        x->cur = c; x->bad = false; x->last_outcome.clear();
        run(c, *x);
        x->cases++;
        shm->running = 0;
        if (x->cases == 1 || x->cases == 17 || x->cases == 1009 || x->cases == 40009)
            x->samples.emplace_back(c, x->last_outcome);
        if (x->violations.size() >= x->max_violations) stop = true;
    }
    void operator()(const std::string &c) { if (want()) exec(c); }
    bool counting = false; uint64_t mark0 = 0;
    void mark(const char *name) { if (counting) printf("%-30s %12llu\n", name, (unsigned long long) (next_index - mark0)); mark0 = next_index; }
    // lazily built case
    template<class F> void lazy(F f) { if (want()) exec(f()); }
};

struct Options { std::string tier = "quick", out, replay, errdir = "/tmp"; int workers = 8; double budget = 600, hang = 20; std::map<std::string, std::string> extra; };

inline void write_worker(const std::string &path, Ctx &x) {
    FILE *f = fopen(path.c_str(), "ab"); if (!f) _exit(97);
    auto w64 = [&](uint64_t v) { fwrite(&v, 8, 1, f); };
    auto ws = [&](const std::string &s) { w64(s.size()); fwrite(s.data(), 1, s.size(), f); };
    w64(x.cases); w64(x.transitions); w64(x.validated);
    w64(x.states.size()); for (auto h : x.states) w64(h);
    w64(x.outcomes.size()); for (auto h : x.outcomes) w64(h);
    w64(x.samples.size()); for (auto &p : x.samples) { ws(p.first); ws(p.second); }
    w64(x.violations.size()); for (auto &p : x.violations) { ws(p.first); ws(p.second); }
    w64(x.tally.size()); for (auto &p : x.tally) { ws(p.first); w64(p.second); }
    fclose(f);
}
inline void read_worker(const std::string &path, Ctx &x) {
    FILE *f = fopen(path.c_str(), "rb"); if (!f) return;
    bool eof = false;
    auto r64 = [&]() { uint64_t v = 0; if (fread(&v, 8, 1, f) != 1) eof = true; return v; };
    auto rs = [&]() { std::string s(eof ? 0 : r64(), 0); if (s.size() && fread(&s[0], 1, s.size(), f) != s.size()) eof = true; return s; };
    while (true) {
        uint64_t c = r64(); if (eof) break;
        x.cases += c; x.transitions += r64(); x.validated += r64();
        for (uint64_t n = r64(); n && !eof; n--) x.states.insert(r64());
        for (uint64_t n = r64(); n && !eof; n--) x.outcomes.insert(r64());
        for (uint64_t n = r64(); n && !eof; n--) { auto a = rs(); auto b = rs(); x.samples.emplace_back(a, b); }
        for (uint64_t n = r64(); n && !eof; n--) { auto a = rs(); auto b = rs(); x.violations.emplace_back(a, b); }
        for (uint64_t n = r64(); n && !eof; n--) { auto a = rs(); x.tally[a] += r64(); }
    }
    fclose(f);
}
inline std::string slurp(const std::string &p, size_t max = 1 << 16, bool tail = false) {
    std::string r; FILE *f = fopen(p.c_str(), "rb"); if (!f) return r;
    if (tail && fseek(f, -(long) max, SEEK_END) != 0) rewind(f);
    char b[4096]; size_t n; while (r.size() < max && (n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n);
    fclose(f); return r;
}

// a scratch directory; run_harness() removes all of them afterwards
inline std::string scratch_dir() {
    const char *b = getenv("VERIF_SCRATCH"); std::string t = std::string(b && *b ? b : "/tmp") + "/verif-XXXXXX";
    if (!mkdtemp(&t[0])) { perror(t.c_str()); exit(3); }
    char *r = realpath(t.c_str(), nullptr); t = r; free(r); return t;
}
struct Harness {
    std::function<void(Emit&, const Options&)> enumerate;
    std::function<void(const std::string&, Ctx&)> run;
    std::function<void()> init = [] {};
};

inline int main_(int argc, char **argv, Harness h) {
    Options o;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--tier") o.tier = val(); else if (a == "--out") o.out = val(); else if (a == "--replay") o.replay = val();
        else if (a == "--workers") o.workers = atoi(val().c_str()); else if (a == "--budget") o.budget = atof(val().c_str());
        else if (a == "--errdir") o.errdir = val(); else if (a == "--hang") o.hang = atof(val().c_str());
        else if (a.substr(0, 2) == "--") { o.extra[a.substr(2)] = val(); }
    }
    setvbuf(stdout, NULL, _IOLBF, 0);
    if (!o.replay.empty()) {
        std::string c = slurp(o.replay, 1 << 22);
        while (!c.empty() && isspace((unsigned char) c.back())) c.pop_back();
        c = unhex(c);
        Ctx x; x.replaying = true; x.cur = c; h.init();
        printf("case: %s\n", show(c, 4000).c_str());
        fflush(stdout);
        h.run(c, x);
        for (auto &p : x.tally) printf("%s: %llu\n", p.first.c_str(), (unsigned long long) p.second); printf("transitions: %llu\n", (unsigned long long) x.transitions);
        printf("outcome: %s\n", show(x.last_outcome, 4000).c_str());
        if (x.violations.empty()) { printf("case holds\n"); return 0; }
        return 1;
    }
    double t0 = now();
    if (o.extra.count("count")) {
        Ctx x; Emit e{&x, nullptr, 0, 1}; e.resume = ~0ull; e.counting = true; e.deadline = 1e18; e.run = h.run;
        h.enumerate(e, o); printf("total %llu, %.1f s\n", (unsigned long long) e.next_index, now() - t0); return 0;
    }
    int n = o.workers;
    std::vector<Shm*> shm(n); std::vector<pid_t> pid(n, 0); std::vector<uint64_t> resume(n, 0), beat(n, 0); std::vector<double> since(n, 0); std::vector<int> crashes(n, 0);
    Ctx total; total.max_violations = 1000;
    std::string base = o.out + ".w";
    auto start = [&](int i) {
        fflush(NULL);
        shm[i]->running = 0; shm[i]->done = 0;
        pid_t p = fork();
        if (p == 0) {
            std::string ef = base + std::to_string(i) + ".err";
            int fd = open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
            dup2(fd, 2); close(fd);
            h.init();
            Ctx x; Emit e{&x, shm[i], i, n};
            e.resume = resume[i]; e.deadline = t0 + o.budget; e.run = h.run;
            h.enumerate(e, o);
            write_worker(base + std::to_string(i), x);
            shm[i]->done = 1;
            fflush(NULL);
            _exit(0);
        }
        pid[i] = p; since[i] = now(); beat[i] = 0;
    };
    for (int i = 0; i < n; i++) {
        shm[i] = (Shm*) mmap(NULL, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        unlink((base + std::to_string(i)).c_str());
        start(i);
    }
    int alive = n; bool crashed_any = false;
    while (alive > 0) {
        for (int i = 0; i < n; i++) {
            if (pid[i] <= 0) continue;
            int st; pid_t p = waitpid(pid[i], &st, WNOHANG);
            bool again = false;
            if (p == pid[i]) {
                if (shm[i]->done && WIFEXITED(st) && WEXITSTATUS(st) == 0) { pid[i] = 0; alive--; continue; }
                std::string c((const char*) shm[i]->data, shm[i]->len);
                std::string err = slurp(base + std::to_string(i) + ".err", 1 << 16, true);
                size_t k = err.find("ERROR:"); if (k == std::string::npos) k = err.find("runtime error"); if (k != std::string::npos) err = err.substr(k > 200 ? k - 200 : 0);
                char b[128];
                if (WIFSIGNALED(st)) snprintf(b, sizeof b, "killed by signal %d", WTERMSIG(st)); else snprintf(b, sizeof b, "exited with status %d", WEXITSTATUS(st));
                if (!shm[i]->running) { fprintf(stderr, "worker %d %s outside of a case: %s\n", i, b, err.c_str()); return 3; }
                total.violations.emplace_back(c, std::string("crash: the code under test ") + b + "\n" + err.substr(0, 3000));
                crashed_any = true;
                again = true;
            } else if (shm[i]->running) {
                if (shm[i]->beat != beat[i]) { beat[i] = shm[i]->beat; since[i] = now(); }
                else if (now() - since[i] > o.hang) {
                    std::string c((const char*) shm[i]->data, shm[i]->len);
                    kill(pid[i], SIGKILL); waitpid(pid[i], &st, 0);
                    char b[80]; snprintf(b, sizeof b, "hang: no result within %g s", o.hang);
                    total.violations.emplace_back(c, b);
                    crashed_any = true;
                    again = true;
                }
            } else since[i] = now();
            if (again) {
                total.cases++;
                if (++crashes[i] > 3 || total.violations.size() > 20) { pid[i] = 0; alive--; shm[i]->truncated = 1; continue; }
                resume[i] = shm[i]->index + 1;   // note: what this worker had covered before the crash is not counted
                start(i);
            }
        }
        usleep(20000);
    }
    (void) crashed_any;
    bool truncated = false;
    for (int i = 0; i < n; i++) { read_worker(base + std::to_string(i), total); unlink((base + std::to_string(i)).c_str()); unlink((base + std::to_string(i) + ".err").c_str()); truncated |= shm[i]->truncated; }
    if (!total.violations.empty()) truncated = true;
    FILE *f = fopen(o.out.c_str(), "w");
    if (!f) return 3;
    fprintf(f, "{\"cases\": %llu, \"states\": %llu, \"transitions\": %llu, \"validated\": %llu, \"outcomes\": %llu, \"complete\": %s, \"wall_s\": %.3f,\n \"tally\": {",
        (unsigned long long) total.cases, (unsigned long long) total.states.size(), (unsigned long long) total.transitions,
        (unsigned long long) total.validated, (unsigned long long) total.outcomes.size(), truncated ? "false" : "true", now() - t0);
    bool first = true;
    for (auto &p : total.tally) { fprintf(f, "%s%s: %llu", first ? "" : ", ", jstr(p.first).c_str(), (unsigned long long) p.second); first = false; }
    fprintf(f, "},\n \"samples\": [");
    for (size_t i = 0; i < total.samples.size() && i < 12; i++)
        fprintf(f, "%s{\"case\": %s, \"outcome\": %s}", i ? ", " : "", jstr(show(total.samples[i].first, 400)).c_str(), jstr(show(total.samples[i].second, 400)).c_str());
    fprintf(f, "],\n \"violations\": [");
    for (size_t i = 0; i < total.violations.size() && i < 40; i++)
        fprintf(f, "%s{\"hex\": %s, \"case\": %s, \"msg\": %s}", i ? ",\n " : "", jstr(hex(total.violations[i].first)).c_str(), jstr(show(total.violations[i].first, 2000)).c_str(), jstr(total.violations[i].second).c_str());
    fprintf(f, "]}\n");
    fclose(f);
    return 0;
}

// ---- helpers for harnesses of C code ----
struct Heap { size_t before; Heap() : before(__sanitizer_get_current_allocated_bytes()) {} long diff() const { return (long) __sanitizer_get_current_allocated_bytes() - (long) before; } };

// a byte buffer with no slack: reads past the end are caught by AddressSanitizer, also for the terminating NUL the
// programs always provide (bc_file_get_contents terminates what it returns)
struct Buf { char *p; size_t n; explicit Buf(const std::string &s) : p((char*) malloc(s.size() + 1)), n(s.size()) { memcpy(p, s.data(), n); p[n] = 0; } ~Buf() { free(p); } };

// all words over an alphabet of tokens of length lo..hi
inline void words(Emit &e, const std::vector<std::string> &alpha, int lo, int hi, const std::string &prefix = "", const std::string &suffix = "") {
    for (int len = lo; len <= hi && !e.stop; len++) {
        std::vector<size_t> ix(len, 0);
        while (!e.stop) {
            if (e.want()) { std::string s = prefix; for (size_t k : ix) s += alpha[k]; s += suffix; e.exec(s); }
            int k = len - 1;
            while (k >= 0 && ++ix[k] == alpha.size()) ix[k--] = 0;
            if (k < 0) break;
        }
    }
}
template<class F> inline void each_word(size_t nalpha, int lo, int hi, F f) {
    for (int len = lo; len <= hi; len++) {
        std::vector<size_t> ix(len, 0);
        while (true) {
            f(ix);
            int k = len - 1;
            while (k >= 0 && ++ix[k] == nalpha) ix[k--] = 0;
            if (k < 0) break;
        }
    }
}
}  // namespace mc
