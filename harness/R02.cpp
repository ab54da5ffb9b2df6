// Every request gets one complete, well-formed and correct answer.
#include "runsrv.hpp"
using namespace rs;
// case: kind (s: in process, t: the program over TCP), root, end (e: shuts down, w: waits), rmax, wmax, fault_at, fault, pieces (separated by \x1e)
static std::string mk(const std::string &req, const char *root = "@/site", const char *end = "w", int rmax = 0, int wmax = 0, int fa = -1, const char *fault = "") {
    return mc::join({"s", root, end, std::to_string(rmax), std::to_string(wmax), std::to_string(fa), fault, req});
}
static SV pieces(const std::string &s) { SV r(1); for (char c : s) if (c == '\x1e') r.emplace_back(); else r.back() += c; return r; }
static std::string whole(const SV &v) { std::string r; for (auto &s : v) r += s; return r; }
static void tcp(const SV &f, Ctx &x);
static void run(const std::string &cs, Ctx &x) {
    auto f = mc::fields(cs); if (f[0] == "t") { tcp(f, x); return; }
    std::string root = f[1]; if (root[0] == '@') root = dir + root.substr(1);
    Conn c; c.segs = pieces(f[7]); c.eof = f[2] == "e"; c.rmax = atoi(f[3].c_str()); c.wmax = atoi(f[4].c_str()); c.fault_at = atoi(f[5].c_str()); c.fault = f[6];
    std::string sent = whole(c.segs);
    bool ended = sent.find_first_of(std::string("\r\n\0", 3)) != std::string::npos;
    int low = lowfd(); mc::Heap h;
    serve(c, root);
    long leak = h.diff(); int low2 = lowfd();
    Want w = reference(root, sent); x.trans(c.calls);
    if (!c.failed && c.next < c.segs.size() && !ended) x.fail("answered before the request line was complete");
    if (c.blocked && ended && !c.failed) x.fail("waits for more data although the request line is complete and the client waits for the answer");
    if (c.blocked && !ended) { w.none_ok = true; }
    std::string m = judge(w, c.reply, c.failed || c.blocked);
    if (!m.empty()) x.fail(w.kind + ": " + m + "\nrequest: " + mc::show(sent.substr(0, 300)) + "\nresponse: " + mc::show(c.reply.substr(0, 400)));
    if (c.closes != 1) x.fail("the connection was closed " + std::to_string(c.closes) + " times");
    if (low != low2) x.fail("file descriptors leaked");
    if (leak > 0) {   // not a one-time allocation of the C library?
        Conn d; d.segs = pieces(f[7]); d.eof = c.eof; d.rmax = c.rmax; d.wmax = c.wmax; d.fault_at = c.fault_at; d.fault = c.fault; d.reply.reserve(1 << 20); long l2 = 0; { mc::Heap h2; serve(d, root); d.reply.clear(); d.reply.shrink_to_fit(); d.segs = SV(); l2 = h2.diff(); }
        Conn g; g.segs = pieces(f[7]); g.eof = c.eof; g.rmax = c.rmax; g.wmax = c.wmax; g.fault_at = c.fault_at; g.fault = c.fault; g.trace.reserve(0); mc::Heap h3; serve(g, root); long l3 = h3.diff() - (g.reply.capacity() > 15 ? (long) g.reply.capacity() + 1 : 0);
        if (l3 > 0) x.fail("memory leaked: " + std::to_string(l3) + " bytes");
    }
    x.count(w.kind); if (c.failed) x.count("failed transfers");
    x.state(w.kind + "|" + sent.substr(0, sent.find_first_of("\r\n")) + "|" + std::to_string(c.segs.size()) + f[2] + f[3] + f[4] + f[5] + f[6]); x.outcome(c.reply.substr(0, 200) + std::to_string(c.reply.size()) + w.kind);
}

// ---- the program itself, over TCP ----
static pid_t srv = 0; static int port = 0;
static bool up() {
    if (srv > 0) { if (kill(srv, 0) == 0 && waitpid(srv, nullptr, WNOHANG) == 0) return true; srv = 0; }
    const char *bin = getenv("VERIF_RUNSERVER"); if (!bin) { fprintf(stdout, "no program\n"); abort(); }
    for (int tries = 0; tries < 20; tries++) {
        int s = __real_socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a = {}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t l = sizeof a;
        if (__real_bind(s, (struct sockaddr*) &a, sizeof a)) abort(); getsockname(s, (struct sockaddr*) &a, &l); port = ntohs(a.sin_port); ::close(s);
        pid_t p = fork();
        if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); int n = ::open("/dev/null", O_RDWR); dup2(n, 1); dup2(n, 2); std::string ps = std::to_string(port), root = dir + "/site"; execl(bin, bin, "-t", "127.0.0.1", "-p", ps.c_str(), "-m", "2", root.c_str(), (char*) 0); _exit(99); }
        for (int k = 0; k < 400; k++) {
            int c = __real_socket(AF_INET, SOCK_STREAM, 0); a.sin_port = htons(port);
            if (connect(c, (struct sockaddr*) &a, sizeof a) == 0) { ::shutdown(c, SHUT_WR); char b[16]; while (::recv(c, b, 16, 0) > 0); ::close(c); if (waitpid(p, nullptr, WNOHANG) == 0) { srv = p; return true; } break; }
            ::close(c); if (waitpid(p, nullptr, WNOHANG) != 0) break; usleep(10000);
        }
        kill(p, SIGKILL); waitpid(p, nullptr, 0);
    }
    return false;
}
static void tcp(const SV &f, Ctx &x) {
    if (!up()) { printf("cannot start the server\n"); abort(); }
    struct sockaddr_in a = {}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons(port);
    SV segs = pieces(f[7]); std::string sent = whole(segs), reply; int one = 1; bool reset = false;
    int c = __real_socket(AF_INET, SOCK_STREAM, 0);
    if (connect(c, (struct sockaddr*) &a, sizeof a)) { x.fail("cannot connect any more"); ::close(c); return; }
    __real_setsockopt(c, IPPROTO_TCP, 1 /* TCP_NODELAY */, &one, sizeof one);
    struct timeval tv = {10, 0}; __real_setsockopt(c, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
    for (size_t i = 0; i < segs.size(); i++) { if (i) usleep(15000); ::send(c, segs[i].data(), segs[i].size(), MSG_NOSIGNAL); }
    if (f[2] == "e") ::shutdown(c, SHUT_WR);
    char b[65536]; ssize_t r; while ((r = ::recv(c, b, sizeof b, 0)) > 0) reply.append(b, r);
    if (r < 0) { if (errno == EAGAIN || errno == EWOULDBLOCK) x.fail("the connection is still open after 10 s"); else reset = true; }
    ::close(c);
    Want w = reference(dir + "/site", sent);
    std::string m = judge(w, reply, false);
    if (!m.empty() && !(reset && reply.empty())) x.fail("over TCP, " + w.kind + ": " + m + "\nrequest: " + mc::show(sent.substr(0, 300)) + "\nresponse: " + mc::show(reply.substr(0, 400)));
    x.trans(2 + segs.size()); x.count("over TCP"); if (reset) x.count("reset by the server's close"); x.state("t" + w.kind + sent.substr(0, 60)); x.outcome("t" + reply.substr(0, 200));
}

static const SV TARGETS{"/", "/a.txt", "/b%20b.html", "/b+b.html", "/p%25q.css", "/p%q.css", "/p%41.css", "/p%2541.css", "/empty.js", "/big.png", "/noext", "/.hid", "/q%3fr.xml", "/q?r.xml", "/x%2By.svg", "/x+y.svg", "/UP.HTML",
    "/d", "/d/", "/d/f.html", "/d/d", "/d/d/", "/e", "/e/", "/e/x.tar.gz", "/e/index", "/h", "/h/", "/m/", "/n/", "/k/", "/k", "/idir", "/idir/", "/s%20p", "/s+p", "/s%20p/", "/c%250d%250aX", "/c%250d%250aX/", "/nl%0d%0aX-Injected:%20y", "/nl%0d%0aX-Injected:%20y/", "/c%0d%0aX", "/%C3%A9", "/%c3%a9/", "/\xc3\xa9", "/\xc3\xa9/",
    "/in.html", "/ind", "/ind/", "/ind/f.html", "/loop", "/loop/", "/dang", "/ii/", "/ii", "/di/", "/out.txt", "/outd", "/outd/", "/abs", "/up/", "/self/", "/self/a.txt", "/back", "/back/", "/oi", "/oi/", "/site-private/", "/site-private", "/nope", "/a.txt/", "/a.txt/x", "/d/../a.txt", "/d/..", "/../site/a.txt", "/../a.txt", "/./", "/.", "/..", "//d", "//d/", "///", "//", "/d//", "/%2e%2e/", "/%64", "/%64/", "/d%2f", "/d%2ff.html", "/d?x", "/d/?x=/y", "/?", "?", "?x", "d", "a.txt", "", "*", "http://h/a.txt", "/%00", "/a.txt%00.html", "/d%00", "/%", "/%4", "/%zz", "/d%0a", "/a.txt#x", "/~", "/\\d", "/d;x", "/d/\t"};
static SV expand(const SV &v) { return v; }
static void enumerate(Emit &e, const Options &o) {
    bool th = o.tier != "quick"; const std::string H = "\r\nHost: localhost:8080\r\nUser-Agent: x\r\n\r\n";
    // request lines
    SV methods{"GET", "get", "POST", "HEAD", "GETX", "GE", "", "G", "PUT", "G\tET"}, vers{"HTTP/1.1", "HTTP/1.0", "HTTP/9", "", "x y", " "}, ends{"\r\n\r\n", "\n\n", "\r", "\n", std::string("\0", 1), H};
    for (auto &m : methods) for (auto &t : TARGETS) for (auto &v : vers) for (auto &en : ends) { if (!th && m != "GET" && en != H && v != "HTTP/1.1") continue; e(mk(m + " " + t + " " + v + en)); }
    for (auto &t : TARGETS) for (auto &m : methods) { e(mk(m + " " + t + H)); e(mk(m + t + H)); e(mk(m + "  " + t + " HTTP/1.1" + H)); e(mk(" " + m + " " + t + " HTTP/1.1" + H)); e(mk(m + " " + t + " HTTP/1.1", "@/site", "e")); }
    for (const char *r : {"@/site/", "site", "link", ".", "@/site/d", "@/missing", "@/site/a.txt", "@/site/loop", "@/site/e", "./site/../site"}) for (auto &t : TARGETS) e(mk("GET " + t + " HTTP/1.1" + H, r));
    e.mark("request lines");
    // byte words
    SV al{"G", "E", "T", " ", "/", "a", "\r", "\n", "?", "%"}; mc::words(e, al, 0, th ? 6 : 5, mc::join({"s", "@/site", "e", "0", "0", "-1", "", ""}));
    SV al2{"GET ", "/", "d", " HTTP/1.1", "\r\n", "\n", " ", "?", "a.txt", std::string("\0", 1), "%2f"}; mc::words(e, al2, 0, th ? 6 : 5, mc::join({"s", "@/site", "e", "0", "0", "-1", "", ""}));
    SV al3{"/", "d", "e", ".", "..", "%2F", "?", "//", "in.html", "ind", "index.html", "%2e", "s%20p", "x"}; mc::words(e, al3, 1, th ? 5 : 4, mc::join({"s", "@/site", "w", "0", "0", "-1", "", "GET /"}), " HTTP/1.1\r\n\r\n");
    for (int b = 1; b < 256; b++) if (b != 0x1e && b != 0x1f) for (const char *t : {"/a.txt", "/", "/d", "/nope"}) {
        std::string s = t; for (size_t i = 0; i <= s.size(); i++) { std::string u = s; u.insert(i, 1, (char) b); e(mk("GET " + u + " HTTP/1.1" + H)); if (i < s.size()) { u = s; u[i] = (char) b; e(mk("GET " + u + " HTTP/1.1" + H)); } }
        e(mk(std::string(1, (char) b) + "GET " + t + " HTTP/1.1" + H)); e(mk("GET" + std::string(1, (char) b) + t + " HTTP/1.1" + H)); e(mk(std::string("GET ") + t + std::string(1, (char) b) + "HTTP/1.1" + H));
        char x[8]; snprintf(x, 8, "%%%02x", b); e(mk("GET /d/../" + std::string(x) + " HTTP/1.1" + H)); e(mk("GET /d" + std::string(x) + " HTTP/1.1" + H)); e(mk(std::string("GET /") + x + "d/ HTTP/1.1" + H));
    }
    for (int n : {100, 254, 255, 256, 257, 1000, 2029, 2030, 2031, 2040, 2046, 2047, 2048, 2049, 4080, 4095, 4096, 4097, 6144, 9000}) { std::string s(n, 'a'), d; while ((int) d.size() < n) d += "./"; for (auto &t : {s, d + "a.txt", std::string("a.txt?") + s}) { e(mk("GET /" + t + " HTTP/1.1" + H)); e(mk("GET /" + t + " HTTP/1.1\n")); e(mk("GET /" + t, "@/site", "e")); } }
    e.mark("words");
    // total sizes around the size of the buffer, the client waiting
    for (int n = 2000; n <= (th ? 8400 : 4200); n += (n % 2048 > 2040 || n % 2048 < 8) ? 1 : 17) { std::string h = "GET /a.txt HTTP/1.1\r\nX: "; e(mk(h + std::string(n - h.size() - 4, 'x') + "\r\n\r\n")); e(mk("GET /a.txt?" + std::string(n - 15, 'y') + " H\r\n")); }
    e.mark("sizes");
    // segmentations: all splits in two and three pieces, byte by byte, with every transfer limit
    SV reqs{"GET /a.txt HTTP/1.1\r\n\r\n", "GET /d HTTP/1.0\r\nA: b\r\n\r\n", "POST / HTTP/1.1\n\n", "GET /b%20b.html HTTP/1.1\r\n\r\n", "GET /\r\n", "GET /d/ HTTP/1.1\r"};
    for (auto &r : reqs) for (const char *en : {"w", "e"}) {
        for (size_t i = 0; i <= r.size(); i++) for (size_t j = i; j <= r.size(); j++) { std::string s = r; s.insert(j, "\x1e"); s.insert(i, "\x1e"); e(mk(s, "@/site", en)); }
        std::string s; for (char ch : r) { s += ch; s += '\x1e'; } for (int k : {0, 1, 2, 3}) e(mk(s, "@/site", en, k, k));
        for (int k = 1; k <= 24; k++) e(mk(r, "@/site", en, k, 0));
    }
    { std::string l = "GET /a.txt?" + std::string(3000, 'q') + " HTTP/1.1\r\n\r\n"; for (size_t i = 1; i < l.size(); i += th ? 1 : 13) { std::string s = l; s.insert(i, "\x1e"); e(mk(s)); } for (int k : {1, 100, 1024, 2047, 2048, 2049}) e(mk(l, "@/site", "w", k)); }
    e.mark("segmentations");
    // every truncation, the client going away or waiting
    for (auto &r : reqs) for (size_t i = 0; i <= r.size(); i++) { e(mk(r.substr(0, i), "@/site", "e")); e(mk(r.substr(0, i), "@/site", "w")); }
    // short, interrupted and failing transfers
    for (const char *t : {"/a.txt", "/", "/d", "/d/", "/nope", "/e/", "/big.png", "/empty.js", "/noext", "/idir/", "/nl%0d%0aX-Injected:%20y", ""}) {
        std::string r = std::string("GET ") + t + " HTTP/1.1" + H;
        for (int k : {1, 2, 3, 5, 7, 10, 16, 64, 100, 1000, 4096, 65535}) { if (k < 100 && !strcmp(t, "/big.png") && !th) continue; e(mk(r, "@/site", "w", 0, k)); e(mk(r, "@/site", "w", k, k)); }
        for (int n = 0; n < 12; n++) for (const char *f : {"one", "half", "eintr", "err"}) for (int k : {0, 50}) { e(mk(r, "@/site", "w", k, k, n, f)); e(mk(r, "@/site", "e", k, k, n, f)); std::string s = r; s.insert(9, "\x1e"); s.insert(2, "\x1e"); e(mk(s, "@/site", "w", k, k, n, f)); }
    }
    for (const char *m : {"POST /", "GET", "GET "}) for (int k : {1, 2, 7, 100}) e(mk(std::string(m) + " HTTP/1.1" + H, "@/site", "w", k, k));
    e.mark("transfers");
    // the program, over TCP
    auto t = [&](const std::string &r, const char *en = "w") { e(mc::join({"t", "@/site", en, "0", "0", "-1", "", r})); };
    for (auto &g : TARGETS) { t("GET " + g + " HTTP/1.1" + H); if (g.size() > 1) t("GET " + g.substr(0, 2) + "\x1e" + g.substr(2) + " HTTP/1.1" + H); t("GET " + g + " HTTP/1.1" + H, "e"); }
    for (auto &m : methods) for (auto &v : vers) t(m + " /a.txt " + v + H);
    for (auto &r : reqs) for (size_t i = 0; i <= r.size(); i++) { t(r.substr(0, i), "e"); std::string s = r; s.insert(i, "\x1e"); t(s); }
    for (int n : {2047, 2048, 2049, 4096, 6144}) { std::string h = "GET /a.txt HTTP/1.1\r\nX: "; t(h + std::string(n - h.size() - 4, 'x') + "\r\n\r\n"); }
    e.mark("tcp");
}
int main(int c, char **v) { mc::Harness h; h.run = run; h.enumerate = enumerate; h.init = init; return mc::main_(c, v, h); }
