// The web server in the process of the explorer: br_httpd_run() accepts one prepared connection (one end of a socket
// pair), its handler runs at once, and what it answers is judged. All calls on the connection go through wrappers, so
// that the request can arrive in any segmentation and every transfer can be short, interrupted or fail.
#pragma once
#include <sys/uio.h>
#include "mc.hpp"
#include "mime_ref.hpp"
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/prctl.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <poll.h>
#include <sys/uio.h>
#include <limits.h>
#include <pthread.h>
#include <errno.h>
#include <memory>
extern "C" {
#include "common/utils.h"
int br_httpd_run(const char *host, const char *port, const char *docroot, size_t max_threads);
}
extern "C" ssize_t __real_recv(int, void*, size_t, int);
namespace rs {
using mc::Ctx; using mc::Emit; using mc::Options;
typedef std::vector<std::string> SV;

struct Conn {
    SV segs; size_t next = 0;            // what the client sends, piece by piece
    bool eof = true;                     // the client shuts its end down after the last piece (else it waits for the answer)
    size_t rmax = 0, wmax = 0;           // largest transfer (0: any)
    int fault_at = -1; std::string fault; // n-th call on the connection: short, eintr, err
    int calls = 0, closes = 0, after_close = 0;
    bool blocked = false, failed = false;
    int server = -1, client = -1;
    std::string reply;
    std::string trace;
};
static Conn *C = nullptr;
static bool accepted = false;
static std::string dir;                  // scratch directory of this worker

static void feed() { if (C->next < C->segs.size()) { std::string &s = C->segs[C->next++]; if (!s.empty() && ::send(C->client, s.data(), s.size(), MSG_NOSIGNAL) != (ssize_t) s.size()) { perror("feed"); abort(); } } if (C->next == C->segs.size() && C->eof) ::shutdown(C->client, SHUT_WR); }
static size_t avail() { int n = 0; struct pollfd p = {C->server, POLLIN, 0}; if (poll(&p, 1, 0) <= 0) return 0; char b[1]; ssize_t r = __real_recv(C->server, b, 1, MSG_PEEK | MSG_DONTWAIT); return r > 0 ? 1 : r == 0 ? 2 : 0; }
// called before a transfer; returns the number of bytes it may move, or -1 with errno set
static ssize_t gate(bool rd, size_t n, bool nonblock) {
    C->calls++;
    size_t lim = rd ? C->rmax : C->wmax; if (lim && n > lim) n = lim;
    if (C->fault_at == C->calls - 1) {
        if (C->fault == "eintr") { errno = EINTR; return -1; }
        if (C->fault == "err") { errno = rd ? ECONNRESET : EPIPE; C->failed = true; return -1; }
        if (C->fault == "one") n = std::min<size_t>(n, 1);
        if (C->fault == "half") n = std::max<size_t>(1, n / 2);
    }
    if (C->failed) { errno = rd ? ECONNRESET : EPIPE; return -1; }
    if (rd && !nonblock) {
        while (avail() == 0 && C->next < C->segs.size()) feed();
        if (avail() == 0) { C->blocked = true; errno = ECONNRESET; return -1; }
    }
    if (!rd) {   // make room
        char b[65536]; ssize_t r; while ((r = ::recv(C->client, b, sizeof b, MSG_DONTWAIT)) > 0) C->reply.append(b, r);
        n = std::min<size_t>(n, 65536);
    }
    return n;
}
static bool mine(int fd) { return C && fd == C->server && fd >= 0; }
static int lowfd() { int f = dup(0); if (f >= 0) ::close(f); return f; }

// runs one connection through the real server
static bool serve(Conn &c, const std::string &docroot) {
    int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) { perror("socketpair"); abort(); }
    c.server = sv[0]; c.client = sv[1]; C = &c; accepted = false;
    feed();
    br_httpd_run("127.0.0.1", "8080", docroot.c_str(), 1);
    char b[65536]; ssize_t r; while ((r = ::recv(c.client, b, sizeof b, MSG_DONTWAIT)) > 0) c.reply.append(b, r);
    if (!c.closes) ::close(c.server);
    ::close(c.client); C = nullptr;
    return true;
}

// ---- the file tree ----
struct File { std::string path; int kind; std::string v; };   // kind: 0 file, 1 directory, 2 link
static std::map<std::string, std::string> content;            // real path: content
static void put(const std::string &base, const std::vector<File> &fs) {
    for (auto &f : fs) {
        std::string p = base + "/" + f.path;
        if (f.kind == 1) mkdir(p.c_str(), 0755);
        else if (f.kind == 2) { if (symlink((f.v[0] == '@' ? base + f.v.substr(1) : f.v).c_str(), p.c_str())) { perror(p.c_str()); abort(); } }
        else { FILE *o = fopen(p.c_str(), "wb"); if (!o) { perror(p.c_str()); abort(); } fwrite(f.v.data(), 1, f.v.size(), o); fclose(o); }
    }
}
static void wipe(const std::string &d) { if (d.find("/verif-") != std::string::npos) if (system(("rm -rf '" + d + "'").c_str())) {} }
static std::string big(size_t n) { std::string s; uint32_t x = 12345; while (s.size() < n) { x = x * 1664525 + 1013904223; s += (char) (x >> 24); } return s; }
static std::vector<File> standard() {
    return {
        {"site", 1, ""}, {"site/index.html", 0, "root index"}, {"site/a.txt", 0, "file a\n"}, {"site/b b.html", 0, "<p>b b</p>"}, {"site/p%q.css", 0, "p%q {}"}, {"site/p%41.css", 0, "percent"},
        {"site/empty.js", 0, ""}, {"site/big.png", 0, big(150000)}, {"site/noext", 0, std::string("no\0ext", 6)}, {"site/.hid", 0, "hidden"}, {"site/q?r.xml", 0, "query"}, {"site/x+y.svg", 0, "plus"}, {"site/UP.HTML", 0, "up"},
        {"site/d", 1, ""}, {"site/d/index.html", 0, "d index"}, {"site/d/f.html", 0, "d f"}, {"site/d/d", 1, ""}, {"site/d/d/index.txt", 0, "d d index"},
        {"site/e", 1, ""}, {"site/e/x.tar.gz", 0, "x"}, {"site/e/index", 0, "not an index"}, {"site/e/aindex.html", 0, "nor this"},
        {"site/h", 1, ""}, {"site/h/index.htm", 0, "h htm"}, {"site/h/index.shtml", 0, "h shtml"}, {"site/m", 1, ""}, {"site/m/index.xml", 0, "<m/>"}, {"site/m/index.txt", 0, "m txt"}, {"site/m/index.xhtml", 0, "m xhtml"},
        {"site/n", 1, ""}, {"site/n/index.xhtml", 0, "n xhtml"}, {"site/k", 1, ""}, {"site/k/index.shtml", 0, "k shtml"}, {"site/k/index.xml", 0, "k xml"},
        {"site/idir", 1, ""}, {"site/idir/index.html", 1, ""}, {"site/idir/index.txt", 0, "idir txt"},
        {"site/s p", 1, ""}, {"site/s p/index.html", 0, "s p"}, {"site/c%0d%0aX", 1, ""}, {"site/c%0d%0aX/index.html", 0, "crlf"}, {"site/nl\r\nX-Injected: y", 1, ""}, {"site/nl\r\nX-Injected: y/index.html", 0, "nl"}, {"site/\xc3\xa9", 1, ""}, {"site/\xc3\xa9/index.html", 0, "e acute"},
        {"site/in.html", 2, "a.txt"}, {"site/ind", 2, "d"}, {"site/loop", 2, "loop"}, {"site/dang", 2, "nowhere"}, {"site/ii", 1, ""}, {"site/ii/index.html", 2, "../a.txt"}, {"site/di", 1, ""}, {"site/di/index.html", 2, "gone"}, {"site/di/index.htm", 0, "di htm"},
        {"site/out.txt", 2, "../secret.txt"}, {"site/outd", 2, "../site-private"}, {"site/abs", 2, "@/secret.txt"}, {"site/up", 2, ".."}, {"site/self", 2, "../site"}, {"site/back", 2, "../outside/in"},
        {"site/oi", 1, ""}, {"site/oi/index.html", 2, "../../secret.txt"}, {"site/oi/index.txt", 0, "oi txt"}, {"site/site-private", 1, ""}, {"site/site-private/index.html", 0, "inner private"},
        {"site-private", 1, ""}, {"site-private/index.html", 0, "SECRET-sibling index"}, {"site-private/x", 0, "SECRET-sibling x"}, {"site-private/a.txt", 0, "SECRET-sibling a"}, {"sitex", 0, "SECRET-prefix"}, {"sit", 1, ""}, {"sit/index.html", 0, "SECRET-shorter"},
        {"secret.txt", 0, "SECRET-file"}, {"index.html", 0, "SECRET-parent index"}, {"a.txt", 0, "SECRET-parent a"}, {"outside", 1, ""}, {"outside/x", 0, "SECRET-x"}, {"outside/index.html", 0, "SECRET-outside"}, {"outside/in", 2, "../site/d"}, {"link", 2, "site"}, {"plain", 0, "SECRET-plain"},
    };
}

// ---- reference ----
static int hv(char c) { if (c >= '0' && c <= '9') return c - '0'; c |= 32; return c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }
static std::string decode(const std::string &s) {
    std::string w;
    for (size_t i = 0; i < s.size();) if (s[i] == '%' && i + 2 < s.size() && hv(s[i + 1]) >= 0 && hv(s[i + 2]) >= 0) { w += (char) (hv(s[i + 1]) * 16 + hv(s[i + 2])); i += 3; } else { w += s[i] == '+' ? ' ' : s[i]; i++; }
    return w;
}
static std::string type_of(const std::string &p) {
    size_t sep = p.find_last_of("/\\"), dot = p.rfind('.');
    if (dot != std::string::npos && dot > 0 && (sep == std::string::npos || dot > sep)) for (auto &m : MIME) if (p.substr(dot + 1) == m.ext) return m.type;
    return "application/octet-stream";
}
static std::string real(const std::string &p, int &err) { char *r = realpath(p.c_str(), nullptr); err = r ? 0 : errno; std::string s = r ? r : ""; free(r); return s; }
static bool inside(const std::string &root, const std::string &p) { return root == "/" || p == root || p.compare(0, root.size() + 1, root + "/") == 0; }
struct Want { std::set<int> status; bool any = false, none_ok = false, must = true; std::string body; bool has_body = false; std::set<std::string> types; std::string loc; std::string kind; };
static Want resolve(const std::string &docroot, const std::string &target) {
    Want w; std::string raw = target.substr(0, target.find('?')), path = decode(raw); int err;
    bool nul = path.find('\0') != std::string::npos; std::string cpath = path.c_str();
    std::string root = real(docroot, err); if (err) { w.status = {404, 500}; if (nul) w.status.insert(400); w.kind = "no root"; return w; }
    std::string p = real(docroot + "/" + cpath, err);
    struct stat st;
    if (err == ENOENT) { w.status = {404}; w.kind = "missing"; }
    else if (err) { w.status = {404, 500, 414, 403}; w.kind = "unresolvable"; }
    else if (!inside(root, p)) { w.status = {403, 404}; w.kind = "outside"; }
    else if (stat(p.c_str(), &st)) { w.status = {404, 500}; w.kind = "gone"; }
    else if (S_ISDIR(st.st_mode)) {
        std::string f; for (auto i : INDEXES) if (access((p + "/" + i).c_str(), F_OK) == 0) { f = p + "/" + i; break; }
        bool slash = cpath.empty() || cpath.back() == '/';
        if (f.empty()) { w.status = {403}; w.kind = "no index"; }
        else {
            std::string r = real(f, err); bool in = !err && inside(root, r); struct stat si; bool reg = !stat(f.c_str(), &si) && S_ISREG(si.st_mode);
            if (!slash) { w.status = {302}; w.loc = cpath + "/"; w.kind = "redirect"; if (!in) w.status.insert({403, 404}); if (!reg) w.status.insert({403, 404, 500}); }
            else if (!in) { w.status = {403, 404}; w.kind = "index outside"; }
            else if (!reg) { w.status = {403, 404, 500}; w.kind = "index not a file"; }
            else { w.status = {200}; w.kind = "index"; w.has_body = true; w.body = mc::slurp(f, 1 << 24); w.types = {type_of(f), type_of(r)}; }
        }
    }
    else if (!S_ISREG(st.st_mode)) { w.status = {403, 404, 500}; w.kind = "special"; }
    else { w.status = {200}; w.kind = "file"; w.has_body = true; w.body = mc::slurp(p, 1 << 24); w.types = {type_of(p)}; if (cpath.size()) w.types.insert(type_of(cpath)); }
    if (nul) { w = Want(); w.status = {400, 404}; w.kind = "nul"; }
    if (target.empty() || target[0] != '/') { w.status.insert({400, 404}); w.kind += " relative"; }
    return w;
}
static Want reference(const std::string &docroot, const std::string &sent) {
    Want w; size_t e = sent.find_first_of(std::string("\r\n\0", 3)); bool ended = e != std::string::npos;
    std::string line = sent.substr(0, e);
    if (line.empty()) { w.none_ok = true; w.status = {400}; w.kind = "empty"; return w; }
    size_t a = line.find(' '), b = a == std::string::npos ? a : line.find(' ', a + 1);
    if (b == std::string::npos) { w.status = {400}; w.kind = "malformed"; }
    else if (line.substr(0, a) != "GET") { w.status = {405}; if (line[0] == ' ') w.status.insert(400); w.kind = "method"; }
    else if (b == a + 1) { w.status = {400}; w.kind = "no target"; }
    else {
        std::string t = line.substr(a + 1, b - a - 1), v = line.substr(b + 1);
        if (t[0] == '?') { w.status = {400}; w.kind = "no path"; w.status.insert(200); w.status.insert(403); w.any = true; }
        else w = resolve(docroot, t);
        if (v != "HTTP/1.1" && v != "HTTP/1.0") { w.status.insert({400, 505}); w.kind += " version"; }
    }
    if (!ended) { w.status.insert(400); w.none_ok = true; w.kind += " unfinished"; }
    return w;
}
struct Reply { int status = 0; std::vector<std::pair<std::string, std::string>> h; std::string body; std::string err; const std::string *get(const char *n) const { for (auto &p : h) if (!strcasecmp(p.first.c_str(), n)) return &p.second; return nullptr; } };
static Reply parse(const std::string &s) {
    Reply r; size_t i = s.find("\r\n");
    if (i == std::string::npos) { r.err = "no status line"; return r; }
    std::string l = s.substr(0, i);
    if (l.size() < 12 || l.compare(0, 7, "HTTP/1.") || !strchr("01", l[7]) || l[8] != ' ' || !isdigit(l[9]) || !isdigit(l[10]) || !isdigit(l[11]) || (l.size() > 12 && l[12] != ' ')) { r.err = "malformed status line"; return r; }
    r.status = atoi(l.c_str() + 9); i += 2;
    while (true) {
        size_t j = s.find("\r\n", i); if (j == std::string::npos) { r.err = "header not terminated"; return r; }
        if (j == i) { i += 2; break; }
        std::string h = s.substr(i, j - i); size_t c = h.find(':');
        if (c == std::string::npos || c == 0) { r.err = "malformed header field"; return r; }
        for (char ch : h.substr(0, c)) if (!isalnum((unsigned char) ch) && ch != '-') { r.err = "malformed header name"; return r; }
        for (char ch : h) if (ch == '\r' || ch == '\n' || ch == 0) { r.err = "line ending inside a header field"; return r; }
        std::string v = h.substr(c + 1); while (!v.empty() && (v[0] == ' ' || v[0] == '\t')) v.erase(0, 1);
        if (r.get(h.substr(0, c).c_str())) { r.err = "duplicate header " + h.substr(0, c); return r; }
        r.h.emplace_back(h.substr(0, c), v); i = j + 2;
    }
    r.body = s.substr(i);
    return r;
}
static std::string slashes(std::string s) { size_t i = 0; while (i < s.size() && s[i] == '/') i++; return i ? "/" + s.substr(i) : s; }
// "" or what is wrong with the answer
static std::string judge(const Want &w, const std::string &reply, bool failed) {
    if (reply.empty()) { if (failed || w.none_ok) return ""; return "no response"; }
    if (failed) return "";
    Reply r = parse(reply);
    if (!r.err.empty()) return r.err;
    const std::string *cl = r.get("Content-Length"), *ct = r.get("Content-Type"), *lo = r.get("Location");
    if (r.get("X-Injected")) return "the request text added a header field";
    if (cl ? *cl != std::to_string(r.body.size()) : true) return "Content-Length is " + (cl ? *cl : "missing") + ", the body has " + std::to_string(r.body.size()) + " bytes";
    if (w.any) return "";
    if (!w.status.count(r.status)) { std::string m; for (int s : w.status) m += " " + std::to_string(s); return "status " + std::to_string(r.status) + ", want" + m; }
    if (r.status == 200) {
        if (!w.has_body) return "unexpected 200";
        if (r.body != w.body) return "body differs from the file: \"" + mc::show(r.body, 100) + "\", want \"" + mc::show(w.body, 100) + "\"";
        std::string t = ct ? ct->substr(0, ct->find(';')) : "";
        if (!ct || !w.types.count(t)) return "type " + (ct ? *ct : "missing") + ", want " + *w.types.begin();
    }
    if (r.status / 100 == 3) {
        if (!lo) return "redirect without a location";
        std::string l = lo->substr(0, lo->find('?'));
        if (l.compare(0, 2, "//") == 0) return "location \"" + mc::show(l) + "\" names another host";
        for (unsigned char ch : l) if (ch <= ' ' || ch == 127) return "location \"" + mc::show(l) + "\" is not a valid reference";
        if (slashes(decode(l)) != slashes(w.loc)) return "location \"" + mc::show(l) + "\" is not the path plus a slash";
    } else if (lo) return "location without a redirect";
    return "";
}
static FILE *quiet;
static void init() {
    signal(SIGPIPE, SIG_IGN);
    dir = mc::scratch_dir(); put(dir, standard());
    if (chdir(dir.c_str())) abort();
    quiet = fopen("/dev/null", "w"); setvbuf(quiet, nullptr, _IONBF, 0); stderr = quiet;
}
}  // namespace rs

extern "C" {
#define REAL(r, n, ...) r __real_##n(__VA_ARGS__); r __wrap_##n(__VA_ARGS__)
static struct sockaddr_in rs_addr; static struct addrinfo rs_ai;
int __wrap_getaddrinfo(const char *, const char *, const struct addrinfo *, struct addrinfo **res) {
    rs_addr.sin_family = AF_INET; rs_addr.sin_port = htons(8080); rs_addr.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    rs_ai.ai_family = AF_INET; rs_ai.ai_socktype = SOCK_STREAM; rs_ai.ai_addr = (struct sockaddr*) &rs_addr; rs_ai.ai_addrlen = sizeof rs_addr; rs_ai.ai_next = nullptr; *res = &rs_ai; return 0;
}
void __wrap_freeaddrinfo(struct addrinfo *) {}
int __real_socket(int a, int b, int c);
int __wrap_socket(int, int, int) { return ::open("/dev/null", O_RDWR); }
int __real_bind(int a, const struct sockaddr *b, socklen_t c);
int __wrap_bind(int, const struct sockaddr*, socklen_t) { return 0; }
int __wrap_listen(int, int) { return 0; }
int __real_setsockopt(int a, int b, int c, const void *d, socklen_t e);
int __wrap_setsockopt(int, int, int, const void*, socklen_t) { return 0; }
int __wrap_accept(int, struct sockaddr *a, socklen_t *l) {
    if (rs::accepted) { errno = EBADF; return -1; }
    rs::accepted = true; memcpy(a, &rs_addr, sizeof rs_addr); *l = sizeof rs_addr; return rs::C->server;
}
int __wrap_accept4(int s, struct sockaddr *a, socklen_t *l, int) { return __wrap_accept(s, a, l); }
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *, void *(*fn)(void*), void *arg) { *t = pthread_self(); fn(arg); return 0; }
int __wrap_pthread_join(pthread_t, void **r) { if (r) *r = nullptr; return 0; }
int __wrap_pthread_detach(pthread_t) { return 0; }
REAL(ssize_t, read, int fd, void *b, size_t n) { if (rs::mine(fd)) { ssize_t m = rs::gate(true, n, false); return m < 0 ? -1 : __real_read(fd, b, m); } return __real_read(fd, b, n); }
REAL(ssize_t, recv, int fd, void *b, size_t n, int f) { if (rs::mine(fd)) { ssize_t m = rs::gate(true, n, f & MSG_DONTWAIT); return m < 0 ? -1 : __real_recv(fd, b, m, f); } return __real_recv(fd, b, n, f); }
REAL(ssize_t, write, int fd, const void *b, size_t n) { if (rs::mine(fd)) { ssize_t m = rs::gate(false, n, false); return m < 0 ? -1 : __real_write(fd, b, m); } return __real_write(fd, b, n); }
REAL(ssize_t, send, int fd, const void *b, size_t n, int f) { if (rs::mine(fd)) { ssize_t m = rs::gate(false, n, false); return m < 0 ? -1 : __real_send(fd, b, m, f | MSG_NOSIGNAL); } return __real_send(fd, b, n, f); }
REAL(ssize_t, writev, int fd, const struct iovec *v, int k) { std::string a; for (int i = 0; i < k; i++) a.append((const char*) v[i].iov_base, v[i].iov_len); return __wrap_write(fd, a.data(), a.size()); }
REAL(ssize_t, sendmsg, int fd, const struct msghdr *m, int f) { std::string a; for (size_t i = 0; i < m->msg_iovlen; i++) a.append((const char*) m->msg_iov[i].iov_base, m->msg_iov[i].iov_len); return __wrap_send(fd, a.data(), a.size(), f); }
REAL(int, close, int fd) { if (rs::mine(fd)) { rs::C->closes++; if (rs::C->closes > 1) { errno = EBADF; return -1; } } return __real_close(fd); }
}
