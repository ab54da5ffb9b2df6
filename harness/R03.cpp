// The web server under a controlled scheduler: every call that synchronises (accept, pthread_*, transfers and close on
// connections) and, in the fine mode, every basic block of its code is a scheduling point; the clients are part of the
// schedule (connecting, sending each piece). Exploration replays the real server from the start for every schedule.
#include <sys/uio.h>
#include <sys/stat.h>
#include "mc.hpp"
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <errno.h>
#include <memory>
extern "C" {
#include "common/utils.h"
int br_httpd_run(const char *host, const char *port, const char *docroot, size_t max_threads);
int __real_socket(int, int, int); int __real_pthread_create(pthread_t*, const pthread_attr_t*, void *(*)(void*), void*); int __real_pthread_join(pthread_t, void**);
ssize_t __real_read(int, void*, size_t); ssize_t __real_recv(int, void*, size_t, int); ssize_t __real_write(int, const void*, size_t); ssize_t __real_send(int, const void*, size_t, int); int __real_close(int);
int __real_shutdown(int, int); int __real_poll(struct pollfd*, nfds_t, int);
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*);
}
using mc::Ctx; using mc::Emit; using mc::Options;
typedef std::vector<std::string> SV;

struct Client { char kind = 'f'; int step = 0, steps = 0, fd = -1, park = -1, sfd = -1, closes = 0; bool queued = false, accepted = false, aborted = false; std::string reply, want, req; size_t cut = 0; bool started_reply = false; };
struct Pool { pthread_t real; sem_t go; struct Thr *job = nullptr; };   // real threads are used again for the next schedule
struct Thr { int id = 0; Pool *on = nullptr; bool finished = false, detached = false, joined = false; void *(*fn)(void*) = nullptr; void *arg = nullptr; std::function<bool()> enabled; int op = 0, obj = -1; };
// labels of operations, for the independence relation of the sleep sets
enum { START, ACCEPT, CREATE, JOIN, READ, WRITE, CLOSE, PC, LOCK, END, CONNECT, SEND };
struct Step { int who, op, obj; };   // who: thread id, or 100 + client
struct Node { std::vector<Step> en; int chosen; std::set<int> sleep, done; std::map<int, Step> sl; };

static std::vector<std::unique_ptr<Thr>> T; static std::vector<Client> CL; static std::vector<int> queue_; static std::map<pthread_mutex_t*, int> locks;
static __thread int me = -1;
static bool active = false, aborting = false, fine = false; static size_t steps, maxlive; static int live, MAXT;
static std::string problem; static std::vector<std::pair<size_t, int>> devs; static size_t devp;
static std::vector<std::pair<uint8_t, std::vector<Step>>> hist;   // (chosen index, enabled)
static int mode;                       // 0: deviations from the default schedule, 1: sleep sets
static std::vector<Node> stack_; static size_t depth_; static bool pruned;
static std::string dir;
static std::set<uint64_t> *seen_states;
static sem_t all_done;

static void trouble(const std::string &m) { if (problem.empty()) problem = m; }
static int client_of(int fd) { for (size_t i = 0; i < CL.size(); i++) if (CL[i].accepted && CL[i].sfd == fd && !CL[i].closes) return i; return -1; }
static int was_client(int fd) { for (size_t i = 0; i < CL.size(); i++) if (CL[i].accepted && CL[i].sfd == fd) return i; return -1; }
static bool done_all() { for (auto &c : CL) if (c.step < c.steps || (c.queued && !c.aborted && !c.closes)) return false; for (auto &t : T) if (t->id && !t->finished) return false; return true; }
static void drain(Client &c) { char b[65536]; ssize_t r; if (c.fd < 0) return; while ((r = __real_recv(c.fd, b, sizeof b, MSG_DONTWAIT)) > 0) c.reply.append(b, r); }
static void client_step(int i) {
    Client &c = CL[i];
    if (c.step == 0) {
        int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) abort();
        c.fd = fcntl(sv[1], F_DUPFD, 600); c.park = fcntl(sv[0], F_DUPFD, 600); __real_close(sv[0]); __real_close(sv[1]); c.queued = true; queue_.push_back(i);
        if (c.kind == 'a') c.aborted = true;
    } else if (c.kind == 'x') { __real_close(c.fd); c.fd = -1; }
    else {
        std::string p = c.steps == 2 ? c.req : c.step == 1 ? c.req.substr(0, c.cut) : c.req.substr(c.cut);
        if (__real_send(c.fd, p.data(), p.size(), MSG_NOSIGNAL) < 0 && !c.closes) abort();
    }
    c.step++;
}
static bool independent(const Step &a, const Step &b) {
    if (a.who == b.who) return false;
    auto grp = [](const Step &s) { switch (s.op) { case ACCEPT: case CONNECT: return 1; case START: case CREATE: case JOIN: case END: return 2; case READ: case WRITE: case CLOSE: case SEND: return 3; default: return 4; } };
    int ga = grp(a), gb = grp(b);
    if (ga == 4 || gb == 4) return false;
    if ((a.op == ACCEPT && b.op == CLOSE) || (b.op == ACCEPT && a.op == CLOSE)) return false;   // descriptor numbers
    if ((a.op == ACCEPT && (b.op == END || b.op == SEND)) || (b.op == ACCEPT && (a.op == END || a.op == SEND))) return false;   // end of the run
    if (ga != gb) return true;
    if (ga == 1) return false;
    return a.obj != b.obj;
}
static void run_client(int i) { client_step(i); }
// decides who goes on; returns its id (100 + i for a client)
static int decide(int cur) {
    std::vector<Step> en;
    for (auto &t : T) if (!t->finished && (aborting || !t->enabled || t->enabled())) en.push_back({t->id, t->op, t->obj});
    if (aborting) return en.empty() ? -1 : en[0].who;
    for (size_t i = 0; i < CL.size(); i++) if (CL[i].step < CL[i].steps) en.push_back({100 + (int) i, CL[i].step ? SEND : CONNECT, (int) i});
    if (++steps > (fine ? 400000u : 5000u)) { trouble("does not come to an end"); aborting = true; return decide(cur); }
    if (en.empty()) { bool all = true; for (auto &t : T) all &= t->finished; if (all) return -1; trouble("deadlock: nothing can go on"); aborting = true; return decide(cur); }
    int pick = -1;
    for (size_t i = 0; i < en.size(); i++) if (en[i].who == cur) pick = i;
    // nobody to continue: first the clients do all they can, then the threads in turn
    if (pick < 0) for (size_t i = 0; i < en.size(); i++) if (en[i].op == CONNECT) { pick = i; break; }
    if (pick < 0) for (size_t i = 0; i < en.size(); i++) if (en[i].who >= 100) { pick = i; break; }
    if (pick < 0) pick = 0;
    if (mode == 0) {
        if (devp < devs.size() && devs[devp].first == hist.size()) { pick = devs[devp++].second; if (pick >= (int) en.size()) { trouble("internal: replay diverged"); pick = 0; } }
        hist.emplace_back(pick, en);
    } else {
        if (depth_ < stack_.size()) { int c = stack_[depth_].chosen; pick = -1; for (size_t i = 0; i < en.size(); i++) if (en[i].who == c) pick = i; if (pick < 0) { trouble("internal: replay diverged"); pick = 0; } depth_++; }
        else if (!pruned) {
            Node n; n.en = en;
            if (!stack_.empty()) { Node &p = stack_.back(); Step ps{}; for (auto &s : p.en) if (s.who == p.chosen) ps = s; for (auto &q : p.sl) if ((p.sleep.count(q.first) || p.done.count(q.first)) && q.first != p.chosen && independent(q.second, ps)) n.sleep.insert(q.first); }
            for (auto &s : en) n.sl[s.who] = s;
            if (!stack_.empty()) for (auto &q : stack_.back().sl) if (n.sleep.count(q.first) && !n.sl.count(q.first)) n.sl[q.first] = q.second;
            int c = -1; if (!n.sleep.count(en[pick].who)) c = en[pick].who; else for (auto &s : en) if (!n.sleep.count(s.who)) { c = s.who; break; }
            if (c < 0) pruned = true; else { n.chosen = c; for (size_t i = 0; i < en.size(); i++) if (en[i].who == c) pick = i; stack_.push_back(n); depth_++; }
        }
    }
    return en[pick].who;
}
static std::vector<Pool*> P; static Pool main_pool;
static void wait_turn() { while (sem_wait(&T[me]->on->go)) {} }
static void schedule() {   // called by the thread that has the turn; returns when it has it again
    while (true) {
        int n = decide(me);
        if (n == -1) { sem_post(&all_done); return; }
        if (n >= 100) { run_client(n - 100); continue; }
        if (n == me) return;
        bool fin = T[me]->finished;
        sem_post(&T[n]->on->go);
        if (fin) return;
        wait_turn(); return;
    }
}
static void point(int op, int obj, std::function<bool()> en = nullptr) {
    if (!active || me < 0) return;
    Thr &t = *T[me]; t.op = op; t.obj = obj; t.enabled = en; schedule(); t.enabled = nullptr;
    if (seen_states && !fine) { std::string s; for (auto &q : T) s += std::to_string(q->op) + (q->finished ? "F" : q->joined ? "J" : ",") + std::to_string(q->obj); for (auto &c : CL) s += "|" + std::to_string(c.step) + (c.accepted ? "a" : "") + std::to_string(c.closes); seen_states->insert(mc::hash(s)); }
}
static void *tramp(void *p) {
    Pool *q = (Pool*) p;
    while (true) {
        while (sem_wait(&q->go)) {}
        Thr *t = q->job; me = t->id;
        t->enabled = nullptr; t->fn(t->arg);
        live--; t->op = END; t->obj = t->id; t->enabled = nullptr;
        schedule();                          // the end of the thread is a step of its own
        t->finished = true; q->job = nullptr; schedule();
        me = -1;
    }
}
extern "C" {
static struct sockaddr_in q_addr; static struct addrinfo q_ai;
int __wrap_getaddrinfo(const char *, const char *, const struct addrinfo *, struct addrinfo **res) {
    q_addr.sin_family = AF_INET; q_addr.sin_port = htons(8080); q_addr.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    q_ai.ai_family = AF_INET; q_ai.ai_socktype = SOCK_STREAM; q_ai.ai_addr = (struct sockaddr*) &q_addr; q_ai.ai_addrlen = sizeof q_addr; q_ai.ai_next = nullptr; *res = &q_ai; return 0;
}
void __wrap_freeaddrinfo(struct addrinfo *) {}
int __wrap_socket(int, int, int) { return ::open("/dev/null", O_RDWR); }
int __wrap_bind(int, const struct sockaddr*, socklen_t) { return 0; }
int __wrap_listen(int, int) { return 0; }
int __wrap_setsockopt(int, int, int, const void*, socklen_t) { return 0; }
int __wrap_accept(int, struct sockaddr *a, socklen_t *l) {
    point(ACCEPT, 0, [] { return !queue_.empty() || done_all(); });
    if (queue_.empty() || aborting) { errno = EBADF; return -1; }
    int i = queue_.front(); queue_.erase(queue_.begin()); Client &c = CL[i];
    if (c.aborted) { __real_close(c.park); errno = ECONNABORTED; return -1; }
    c.sfd = dup(c.park); __real_close(c.park); c.accepted = true;
    for (auto &o : CL) if (&o != &c && o.sfd == c.sfd) { if (!o.closes) abort(); o.sfd = -2; }   // the number is in use again
    memcpy(a, &q_addr, sizeof q_addr); *l = sizeof q_addr; return c.sfd;
}
int __wrap_accept4(int s, struct sockaddr *a, socklen_t *l, int) { return __wrap_accept(s, a, l); }
int __wrap_pthread_create(pthread_t *p, const pthread_attr_t *, void *(*fn)(void*), void *arg) {
    if (!active || me < 0) return __real_pthread_create(p, nullptr, fn, arg);
    int id = T.size(); point(CREATE, id);
    std::unique_ptr<Thr> t(new Thr); t->id = id; t->fn = fn; t->arg = arg; t->op = START; t->obj = id;
    live++; maxlive = std::max<size_t>(maxlive, live); if (live > MAXT) trouble(std::to_string(live) + " connections are served at the same time");
    Thr *q = t.get(); T.push_back(std::move(t));
    for (auto u : P) if (!u->job) { q->on = u; break; }
    if (!q->on) { q->on = new Pool; sem_init(&q->on->go, 0, 0); P.push_back(q->on); if (__real_pthread_create(&q->on->real, nullptr, tramp, q->on)) abort(); }
    q->on->job = q; *p = (pthread_t) (0x1000 + id); return 0;
}
static Thr *by(pthread_t p) { for (auto &t : T) if (t->id && !t->joined && (pthread_t) (0x1000 + t->id) == p) return t.get(); return nullptr; }
int __wrap_pthread_join(pthread_t p, void **r) {
    if (!active || me < 0) return __real_pthread_join(p, r);
    Thr *t = by(p); if (!t) { trouble("joins a thread that is not there (any more)"); return ESRCH; }
    point(JOIN, t->id, [t] { return t->finished; });
    if (t->detached) trouble("joins a detached thread");
    t->joined = true; if (r) *r = nullptr; return 0;
}
pthread_t __real_pthread_self(void);
pthread_t __wrap_pthread_self(void) { return active && me > 0 ? (pthread_t) (0x1000 + me) : __real_pthread_self(); }
int __wrap_pthread_detach(pthread_t p) { if (!active || me < 0) return 0; Thr *t = by(p); if (!t) { trouble("detaches a thread that is not there (any more)"); return ESRCH; } t->detached = true; return 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { if (!active || me < 0) return __real_pthread_mutex_lock(m); point(LOCK, 0, [m] { return !locks[m]; }); locks[m] = me + 1; return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { if (!active || me < 0) return __real_pthread_mutex_unlock(m); point(LOCK, 0); locks[m] = 0; return 0; }
static bool readable(int fd) { struct pollfd p = {fd, POLLIN, 0}; return __real_poll(&p, 1, 0) > 0; }
static int conn(int fd, const char *what) { if (!active || me < 0) return -1; int i = client_of(fd); struct stat st; bool file = i < 0 && 0 == fstat(fd, &st) && !S_ISSOCK(st.st_mode); /* the number may be a file's by now */ if (i < 0 && !file && was_client(fd) >= 0) trouble(std::string(what) + " on a connection that was closed already"); return i; }
ssize_t __wrap_recv(int fd, void *b, size_t n, int f) { int i = conn(fd, "read"); if (i < 0) return __real_recv(fd, b, n, f); if (f & MSG_DONTWAIT) point(READ, i); else point(READ, i, [fd] { return readable(fd); }); if (aborting) { errno = ECONNRESET; return -1; } return __real_recv(fd, b, n, f); }
ssize_t __wrap_read(int fd, void *b, size_t n) { int i = conn(fd, "read"); return i < 0 ? __real_read(fd, b, n) : __wrap_recv(fd, b, n, 0); }
ssize_t __wrap_send(int fd, const void *b, size_t n, int f) { int i = conn(fd, "write"); if (i < 0) return __real_send(fd, b, n, f); point(WRITE, i); drain(CL[i]); return __real_send(fd, b, std::min<size_t>(n, 60000), f | MSG_NOSIGNAL); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { int i = conn(fd, "write"); return i < 0 ? __real_write(fd, b, n) : __wrap_send(fd, b, n, 0); }
ssize_t __wrap_writev(int fd, const struct iovec *v, int k) { std::string a; for (int i = 0; i < k; i++) a.append((const char*) v[i].iov_base, v[i].iov_len); return __wrap_write(fd, a.data(), a.size()); }
ssize_t __wrap_sendmsg(int fd, const struct msghdr *m, int f) { std::string a; for (size_t i = 0; i < m->msg_iovlen; i++) a.append((const char*) m->msg_iov[i].iov_base, m->msg_iov[i].iov_len); return __wrap_send(fd, a.data(), a.size(), f); }
int __wrap_shutdown(int fd, int how) { int i = conn(fd, "shutdown"); if (i >= 0) point(WRITE, i); return __real_shutdown(fd, how); }
int __wrap_close(int fd) {
    int i = conn(fd, "close"); if (i < 0) return __real_close(fd);
    point(CLOSE, i); i = client_of(fd); if (i < 0) { trouble("closes a connection twice"); errno = EBADF; return -1; }
    CL[i].closes++; return __real_close(fd);
}
int __wrap_poll(struct pollfd *p, nfds_t n, int t) { if (!active || me < 0 || t == 0) return __real_poll(p, n, t); if (t < 0) point(READ, 0, [=] { return __real_poll(p, n, 0) != 0; }); else point(READ, 0); return __real_poll(p, n, 0); }
__attribute__((no_sanitize("address", "undefined"))) void __sanitizer_cov_trace_pc(void) { if (fine && active && me >= 0) point(PC, 0); }
}
// one execution of the server under the current schedule
static std::string expect(char k) {
    switch (k) { case 'f': case 's': case '0': return "A"; case 'g': return "B"; case 'd': return "302"; case 'n': return "404"; case 'b': return "big"; case 'm': return "400"; } return "";
}
static std::string big_;
static std::string execute(const std::string &kinds, int maxt, long *leak) {
    T.clear(); CL.clear(); queue_.clear(); locks.clear(); hist.clear(); devp = 0; depth_ = 0; pruned = false; steps = 0; live = 0; maxlive = 0; aborting = false; problem.clear(); MAXT = maxt;
    int low0 = dup(0); __real_close(low0);
    for (size_t i = 0; i < kinds.size(); i++) {
        Client c; c.kind = kinds[i]; c.steps = c.kind == 's' ? 3 : c.kind == 'a' ? 1 : 2; std::string n = std::to_string(i);
        c.req = c.kind == 'm' ? "GET\r\n\r\n" : std::string("GET ") + (c.kind == 'd' ? "/d" + n : c.kind == 'n' ? "/none" : c.kind == 'b' ? "/big.png" : "/f" + n + ".txt") + " HTTP/1.1\r\n\r\n"; c.cut = 6; CL.push_back(c);
    }
    std::unique_ptr<Thr> m(new Thr); m->on = &main_pool; T.push_back(std::move(m)); me = 0; active = true;
    mc::Heap h;
    br_httpd_run("127.0.0.1", "8080", "site", maxt);
    T[0]->finished = true; schedule(); while (sem_wait(&all_done)) {}
    active = false; me = -1;
    int zombies = 0; for (auto &t : T) if (t->id && !t->joined && !t->detached) zombies++;
    if (zombies > maxt) trouble(std::to_string(zombies) + " finished threads were never joined");
    for (size_t i = 0; i < CL.size(); i++) {
        Client &c = CL[i]; drain(c); std::string n = std::to_string(i), w = "client " + n + " (" + c.kind + "): "; std::string &r = c.reply; size_t hb = r.find("\r\n\r\n"); std::string body = hb == std::string::npos ? "" : r.substr(hb + 4);
        if (c.kind == 'a' ? c.closes != 0 : c.closes != 1) trouble(w + "the connection was closed " + std::to_string(c.closes) + " times");
        auto st = [&](const char *s) { return r.compare(0, 7, "HTTP/1.") == 0 && r.size() > 12 && r.compare(9, 3, s) == 0; };
        bool ok = true;
        switch (c.kind) {
            case 'f': case 's': ok = st("200") && body == "content of file " + n + "\n"; break;
            case 'd': ok = st("302") && r.find("/d" + n + "/\r\n") != std::string::npos && body.empty(); break;
            case 'n': ok = st("404") && r.find("HTTP", 4) == std::string::npos; break;
            case 'm': ok = st("400") && r.find("HTTP", 4) == std::string::npos; break;
            case 'b': ok = st("200") && body == big_; break;
            case 'x': case 'a': ok = r.empty(); break;
        }
        if (!ok) trouble(w + "got \"" + mc::show(r.substr(0, 300)) + "\"");
        if (c.fd >= 0) __real_close(c.fd);
        if (!c.accepted && c.park >= 0 && c.kind != 'a') __real_close(c.park);
    }
    int low1 = dup(0); __real_close(low1); if (low0 != low1) trouble("file descriptors leaked");
    std::string p = problem; return p;
}
static std::string show_devs() { std::string s; for (auto &d : devs) s += " at step " + std::to_string(d.first) + " choice " + std::to_string(d.second) + ";"; return s; }
static std::string who(int w) { return w >= 100 ? "client" + std::to_string(w - 100) : w ? "thread" + std::to_string(w) : "main"; }
static const char *opn(int o) { static const char *n[] = {"start", "accept", "create", "join", "read", "write", "close", "block", "lock", "end", "connect", "send"}; return n[o]; }
static std::string show_hist() { std::string s; if (fine) return s; if (mode == 0) for (auto &h : hist) s += who(h.second[h.first].who) + "." + opn(h.second[h.first].op) + " "; else for (auto &n : stack_) for (auto &e : n.en) if (e.who == n.chosen) s += who(e.who) + "." + opn(e.op) + " "; return s; }

// case: mode (d: deviations, f: deviations at every basic block, z: sleep sets), threads, kinds of clients, bound, shard, shards
static void report(Ctx &x, const std::string &p) { x.fail(p + "\nschedule: " + (mode == 0 ? show_devs() + " " : "") + show_hist()); }
static void explore_dev(const std::string &kinds, int mt, int bound, int shard, int shards, Ctx &x) {
    mode = 0; std::vector<std::vector<std::pair<size_t, int>>> todo(1); size_t n = 0, first = 0;
    while (!todo.empty() && !x.bad) {
        devs = todo.back(); todo.pop_back(); long l; std::string p = execute(kinds, mt, &l); n++; x.trans(steps);
        if (!p.empty()) { report(x, p); break; }
        if ((int) devs.size() >= bound) continue;
        size_t from = devs.empty() ? 0 : devs.back().first + 1;
        for (size_t i = from; i < hist.size(); i++) for (size_t a = 0; a < hist[i].second.size(); a++) if (a != hist[i].first) {
            if (devs.empty() && (int) (first++ % shards) != shard) continue;
            // with basic blocks as points, preempting to a client that only connects or sends is explored at the other points
            if (fine && hist[i].second[a].who >= 100 && i > 0 && hist[i - 1].second.size() == hist[i].second.size()) continue;
            auto d = devs; d.emplace_back(i, a); todo.push_back(d);
        }
    }
    x.count("schedules", n);
}
static void explore_sleep(const std::string &kinds, int mt, Ctx &x) {
    mode = 1; stack_.clear(); size_t n = 0, cut = 0;
    while (true) {
        long l; std::string p = execute(kinds, mt, &l); n++; cut += pruned; x.trans(steps);
        if (!p.empty()) { report(x, p); break; }
        while (!stack_.empty()) {
            Node &t = stack_.back(); t.done.insert(t.chosen); int c = -1;
            for (auto &s : t.en) if (!t.sleep.count(s.who) && !t.done.count(s.who)) { c = s.who; break; }
            if (c >= 0) { t.chosen = c; break; }
            stack_.pop_back();
        }
        if (stack_.empty()) break;
        if (n >= 400000) { x.count("cut"); break; }
    }
    x.count("schedules (sleep sets)", n); x.count("redundant, cut by sleep sets", cut);
}
static std::set<uint64_t> states_;
static void run(const std::string &cs, Ctx &x) {
    auto f = mc::fields(cs); int mt = atoi(f[1].c_str()), bound = atoi(f[3].c_str()), sh = atoi(f[4].c_str()), n = atoi(f[5].c_str());
    fine = f[0] == "f"; seen_states = &states_; states_.clear();
    if (f[0] == "z") explore_sleep(f[2], mt, x); else explore_dev(f[2], mt, bound, sh, n, x);
    // the balance of the heap over one more run of the default schedule
    if (!x.bad) { mode = 0; devs.clear(); long l; for (int k = 0; k < 2; k++) { execute(f[2], mt, &l); T.clear(); CL.clear(); hist.clear(); hist.shrink_to_fit(); problem.clear(); } size_t a = __sanitizer_get_current_allocated_bytes(); execute(f[2], mt, &l); T.clear(); CL.clear(); queue_.clear(); hist.clear(); hist.shrink_to_fit(); size_t b = __sanitizer_get_current_allocated_bytes(); if (b > a + 64) x.fail("memory leaked: " + std::to_string(b - a) + " bytes over " + f[2]); }
    for (auto s : states_) x.state(mc::hash(cs.substr(0, 8)) ^ s);
    x.outcome(f[0] + f[1] + f[2]);
}
static void enumerate(Emit &e, const Options &o) {
    bool th = o.tier != "quick";
    auto mk = [&](const char *m, int t, const std::string &k, int b, int n) { for (int i = 0; i < n; i++) e(mc::join({m, std::to_string(t), k, std::to_string(b), std::to_string(i), std::to_string(n)})); };
    auto each = [&](const std::string &al, int len, std::function<void(const std::string&)> f) { mc::each_word(al.size(), len, len, [&](const std::vector<size_t> &ix) { std::string s; for (size_t k : ix) s += al[k]; f(s); }); };
    if (o.extra.count("only")) {   // built with every basic block of the shared code as a point, too
        for (const char *k : {"ff", "fd", "nf"}) mk("f", 2, k, 1, 32);
        for (const char *k : {"fs", "dd", "fff", "bf", "nm"}) for (int t : {2, 3}) if (th || t == 2) mk("f", t, k, 1, 64);
        if (th) mk("f", 2, "ff", 2, 2048);
        return;
    }
    // fine: basic blocks
    for (int t : {1, 2}) for (const char *k : {"ff", "fd", "fn", "dm", "sf"}) mk("f", t, k, 1, 16);
    for (const char *k : {"fff", "fdn"}) for (int t : {1, 2, 3}) mk("f", t, k, 1, 16);
    if (th) for (const char *k : {"ff", "fd", "sf", "nf"}) mk("f", 2, k, 2, 512);
    // deviations
    for (int t : {1, 2, 3}) { if (t < 3) each("fxsdnm", 2, [&](const std::string &k) { mk("d", t, k, th ? 4 : 3, th ? 16 : 4); }); each("fxs", 3, [&](const std::string &k) { mk("d", t, k, th ? 3 : 2, th ? 32 : 2); }); mk("d", t, "ffff", th ? 3 : 2, 16); mk("d", t, "bfb", 2, 8); mk("d", t, "faf", th ? 3 : 2, 8); mk("d", t, "fffff", 2, 16); mk("d", t, "afaf", 2, 8); }
    // sleep sets: all schedules, up to commuting independent steps
    for (int t : {1, 2, 3}) { each("fxs", 1, [&](const std::string &k) { mk("z", t, k, 0, 1); }); each("fxsa", 2, [&](const std::string &k) { mk("z", t, k, 0, 1); }); }
    mk("z", 1, "xxx", 0, 1);
    if (th) for (int t : {1, 2, 3}) for (const char *k : {"xxx", "fff", "fxf", "xfx", "ffx"}) mk("z", t, k, 0, 1);
}
int main(int c, char **v) {
    mc::Harness h; h.run = run; h.enumerate = enumerate;
    h.init = [] {
        signal(SIGPIPE, SIG_IGN); sem_init(&all_done, 0, 0); sem_init(&main_pool.go, 0, 0);
        dir = mc::scratch_dir(); if (chdir(dir.c_str())) abort(); mkdir("site", 0755);
        for (int i = 0; i < 6; i++) { std::string n = std::to_string(i); FILE *f = fopen(("site/f" + n + ".txt").c_str(), "w"); fprintf(f, "content of file %d\n", i); fclose(f); mkdir(("site/d" + n).c_str(), 0755); f = fopen(("site/d" + n + "/index.html").c_str(), "w"); fprintf(f, "index %d\n", i); fclose(f); }
        for (int i = 0; i < 70000; i++) big_ += (char) ('a' + (i * 7 + i / 100) % 26); FILE *f = fopen("site/big.png", "w"); fwrite(big_.data(), 1, big_.size(), f); fclose(f);
        FILE *q = fopen("/dev/null", "w"); setvbuf(q, nullptr, _IONBF, 0); stderr = q;
    };
    return mc::main_(c, v, h);
}
