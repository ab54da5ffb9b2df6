// fi: runs a program under ptrace and treats its system calls as the points where the environment may misbehave.
// It lists the points of a run, or lets exactly one of them fail, come up short, or be the moment of a crash.
//   fi [-s DIR]... [-x NAME]... [-k CLASSES] [-l LOG] [-n N] [-m MODE] [-t SECONDS] -- command...
// A point is a system call of a process whose executable is called NAME (any if none is given), on a path below DIR (or
// a descriptor of one), and of a class of CLASSES: f files, p pipes, s sockets, c child processes.
// MODE: err:ERRNO   the call fails with ERRNO and has no effect (close releases its descriptor anyway)
//       short       a read or write is given half of its size, at least one byte
//       one         a read or write is given one byte
//       kill        the whole process tree is killed instead of the call
//       torn        half of the write is done, then the tree is killed
//       killafter   the tree is killed right after the call
//       max:K       every read and write gets at most K bytes (from the N-th point on)
//       hold:F    the thread stands still (the others do not) until there is a file F; it makes F.held
//       sig:S       the first process gets signal S
// -H SCRIPT: at point N the process stops, SCRIPT is run with /bin/sh, and the program goes on. N may be a list N,N,..; the
// script finds the number of the hit in $FI_HIT.
// -1: only the calls of the first process count.
// -d: other programs that the named ones run are not followed.
// Exit status: that of the command, 128+signal if it was killed, 124 on timeout, 120 for failures of fi itself.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <linux/ptrace.h>
#include <asm/unistd.h>

typedef struct { long nr; const char *name; char kind; int path, dirfd, path2, dirfd2, fd, len; } call_t;
// kind f: by path or descriptor, c: child process; -1: not there; -2: the working directory
static const call_t calls[] = {
    {SYS_open, "open", 'f', 0, -2, -1, -1, -1, -1}, {SYS_openat, "openat", 'f', 1, 0, -1, -1, -1, -1}, {SYS_creat, "creat", 'f', 0, -2, -1, -1, -1, -1},
    {SYS_stat, "stat", 'f', 0, -2, -1, -1, -1, -1}, {SYS_lstat, "lstat", 'f', 0, -2, -1, -1, -1, -1}, {SYS_newfstatat, "newfstatat", 'f', 1, 0, -1, -1, 0, -1},
    {SYS_access, "access", 'f', 0, -2, -1, -1, -1, -1}, {SYS_faccessat, "faccessat", 'f', 1, 0, -1, -1, -1, -1}, {SYS_faccessat2, "faccessat2", 'f', 1, 0, -1, -1, -1, -1},
    {SYS_mkdir, "mkdir", 'f', 0, -2, -1, -1, -1, -1}, {SYS_mkdirat, "mkdirat", 'f', 1, 0, -1, -1, -1, -1}, {SYS_rmdir, "rmdir", 'f', 0, -2, -1, -1, -1, -1},
    {SYS_unlink, "unlink", 'f', 0, -2, -1, -1, -1, -1}, {SYS_unlinkat, "unlinkat", 'f', 1, 0, -1, -1, -1, -1},
    {SYS_rename, "rename", 'f', 0, -2, 1, -2, -1, -1}, {SYS_renameat, "renameat", 'f', 1, 0, 3, 2, -1, -1}, {SYS_renameat2, "renameat2", 'f', 1, 0, 3, 2, -1, -1},
    {SYS_symlink, "symlink", 'f', 1, -2, -1, -1, -1, -1}, {SYS_symlinkat, "symlinkat", 'f', 2, 1, -1, -1, -1, -1}, {SYS_link, "link", 'f', 0, -2, 1, -2, -1, -1},
    {SYS_linkat, "linkat", 'f', 1, 0, 3, 2, -1, -1}, {SYS_readlink, "readlink", 'f', 0, -2, -1, -1, -1, -1}, {SYS_readlinkat, "readlinkat", 'f', 1, 0, -1, -1, -1, -1},
    {SYS_chmod, "chmod", 'f', 0, -2, -1, -1, -1, -1}, {SYS_chdir, "chdir", 'f', 0, -2, -1, -1, -1, -1}, {SYS_truncate, "truncate", 'f', 0, -2, -1, -1, -1, -1},
    {SYS_utimensat, "utimensat", 'f', 1, 0, -1, -1, -1, -1}, {SYS_statx, "statx", 'f', 1, 0, -1, -1, -1, -1},
    {SYS_read, "read", 'f', -1, -1, -1, -1, 0, 2}, {SYS_write, "write", 'f', -1, -1, -1, -1, 0, 2}, {SYS_pread64, "pread64", 'f', -1, -1, -1, -1, 0, 2},
    {SYS_pwrite64, "pwrite64", 'f', -1, -1, -1, -1, 0, 2}, {SYS_readv, "readv", 'f', -1, -1, -1, -1, 0, -1}, {SYS_writev, "writev", 'f', -1, -1, -1, -1, 0, -1},
    {SYS_close, "close", 'f', -1, -1, -1, -1, 0, -1}, {SYS_fstat, "fstat", 'f', -1, -1, -1, -1, 0, -1}, {SYS_getdents64, "getdents64", 'f', -1, -1, -1, -1, 0, -1},
    {SYS_ftruncate, "ftruncate", 'f', -1, -1, -1, -1, 0, -1}, {SYS_fsync, "fsync", 'f', -1, -1, -1, -1, 0, -1}, {SYS_fdatasync, "fdatasync", 'f', -1, -1, -1, -1, 0, -1},
    {SYS_fchmod, "fchmod", 'f', -1, -1, -1, -1, 0, -1}, {SYS_lseek, "lseek", 'f', -1, -1, -1, -1, 0, -1}, {SYS_sendfile, "sendfile", 'f', -1, -1, -1, -1, 0, 3},
    {SYS_copy_file_range, "copy_file_range", 'f', -1, -1, -1, -1, 0, 4}, {SYS_recvfrom, "recvfrom", 'f', -1, -1, -1, -1, 0, 2}, {SYS_sendto, "sendto", 'f', -1, -1, -1, -1, 0, 2},
    {SYS_accept, "accept", 'f', -1, -1, -1, -1, 0, -1}, {SYS_accept4, "accept4", 'f', -1, -1, -1, -1, 0, -1}, {SYS_shutdown, "shutdown", 'f', -1, -1, -1, -1, 0, -1},
    {SYS_poll, "poll", 'c', -1, -1, -1, -1, -1, -1}, {SYS_select, "select", 'c', -1, -1, -1, -1, -1, -1}, {SYS_pselect6, "pselect6", 'c', -1, -1, -1, -1, -1, -1}, {SYS_ppoll, "ppoll", 'c', -1, -1, -1, -1, -1, -1},
    {SYS_fork, "fork", 'c', -1, -1, -1, -1, -1, -1}, {SYS_vfork, "vfork", 'c', -1, -1, -1, -1, -1, -1}, {SYS_clone, "clone", 'c', -1, -1, -1, -1, -1, -1}, {SYS_clone3, "clone3", 'c', -1, -1, -1, -1, -1, -1},
    {SYS_execve, "execve", 'c', -1, -1, -1, -1, -1, -1}, {SYS_pipe, "pipe", 'c', -1, -1, -1, -1, -1, -1}, {SYS_pipe2, "pipe2", 'c', -1, -1, -1, -1, -1, -1},
    {SYS_getcwd, "getcwd", 'c', -1, -1, -1, -1, -1, -1},
};
#define NCALLS (sizeof calls / sizeof *calls)
#define MAXP 4096
typedef struct { pid_t pid; int ord; bool entered; int act; long err; char exe[64]; } proc_t;
static proc_t procs[MAXP];
static int nprocs, nord;
static const char *dirs[16], *names[16], *classes = "f", *hook;
static int ndirs, nnames;
static long point = -1, npoints; static const char *more = ""; static int hits;
static const char *mode = "";
static FILE *logf_;
static pid_t mainpid, held; static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static volatile sig_atomic_t alarmed; static bool letgo, first;
static double timeout_s = 30;
static void on_alarm(int s) { alarmed = 1; }
static void exe_of(proc_t *p) { char l[64], b[PATH_MAX]; snprintf(l, sizeof l, "/proc/%d/exe", p->pid); ssize_t n = readlink(l, b, sizeof b - 1); if (n < 0) n = 0; b[n] = 0; char *s = strrchr(b, '/'); snprintf(p->exe, sizeof p->exe, "%s", s ? s + 1 : b); }
static proc_t *get(pid_t pid) {
    for (int i = 0; i < nprocs; i++) if (procs[i].pid == pid) return &procs[i];
    proc_t *p = NULL; for (int i = 0; i < nprocs && !p; i++) if (!procs[i].pid) p = &procs[i];
    if (!p) { if (nprocs == MAXP) exit(120); p = &procs[nprocs++]; }
    memset(p, 0, sizeof *p); p->pid = pid; p->ord = nord++; exe_of(p); return p;
}
static void killall(void) { for (int i = 0; i < nprocs; i++) if (procs[i].pid) kill(procs[i].pid, SIGKILL); }
static bool rdstr(pid_t pid, uint64_t a, char *b, size_t n) {
    size_t i = 0; while (i < n - 1) { char c[64]; size_t m = 64 - (a + i) % 64; if (m > n - 1 - i) m = n - 1 - i; struct iovec l = {c, m}, r = {(void*) (a + i), m}; ssize_t g = process_vm_readv(pid, &l, 1, &r, 1, 0); if (g <= 0) { b[i] = 0; return false; } for (ssize_t k = 0; k < g; k++) if (!(b[i++] = c[k])) return true; }
    b[i] = 0; return true;
}
static void lnk(pid_t pid, const char *w, char *b, size_t n) { char l[64]; snprintf(l, sizeof l, "/proc/%d/%s", pid, w); ssize_t g = readlink(l, b, n - 1); b[g < 0 ? 0 : g] = 0; }
static void normal(char *s) {   // resolves . and .. by text
    char out[PATH_MAX] = ""; size_t o = 0; char *save, *t = strdup(s), *p = strtok_r(t, "/", &save);
    for (; p; p = strtok_r(NULL, "/", &save)) { if (!strcmp(p, ".")) continue; if (!strcmp(p, "..")) { while (o && out[o] != '/') o--; out[o] = 0; continue; } o += snprintf(out + o, sizeof out - o, "/%s", p); if (o >= sizeof out) o = sizeof out - 1; }
    free(t); strcpy(s, o ? out : "/");
}
static void path_of(pid_t pid, uint64_t *a, int path, int dirfd, char *b) {
    char s[PATH_MAX], d[PATH_MAX]; rdstr(pid, a[path], s, sizeof s);
    if (s[0] == '/') { snprintf(b, PATH_MAX, "%s", s); normal(b); return; }
    if (dirfd == -2 || (int) a[dirfd] == AT_FDCWD) lnk(pid, "cwd", d, sizeof d); else { char w[32]; snprintf(w, sizeof w, "fd/%d", (int) a[dirfd]); lnk(pid, w, d, sizeof d); }
    snprintf(b, PATH_MAX, "%.2000s/%.2000s", d, s); normal(b);
}
static bool below(const char *p) { for (int i = 0; i < ndirs; i++) { size_t n = strlen(dirs[i]); if (!strncmp(p, dirs[i], n) && (!p[n] || p[n] == '/')) return true; } return false; }
static const call_t *eligible(proc_t *p, uint64_t nr, uint64_t *a, char *desc) {
    const call_t *c = NULL; for (size_t i = 0; i < NCALLS && !c; i++) if (calls[i].nr == (long) nr) c = &calls[i];
    if (!c || (first && p->pid != mainpid)) return NULL;
    if (nnames) { bool ok = false; for (int i = 0; i < nnames; i++) if (!strcmp(names[i], p->exe)) ok = true; if (!ok) return NULL; }
    desc[0] = 0;
    if (c->kind == 'c') {
        if (!strchr(classes, 'c')) return NULL;
        if (c->nr == SYS_execve) { rdstr(p->pid, a[0], desc, PATH_MAX); if (access(desc, X_OK)) return NULL; }
        if (c->nr == SYS_clone || c->nr == SYS_clone3) { uint64_t fl = a[0]; if (c->nr == SYS_clone3) { struct iovec l = {&fl, 8}, r = {(void*) a[0], 8}; process_vm_readv(p->pid, &l, 1, &r, 1, 0); } if (fl & 0x10000) return NULL; }
        return c;
    }
    if (c->path >= 0) {
        char q[PATH_MAX], s[8]; rdstr(p->pid, a[c->path], s, sizeof s);
        if (!s[0] && c->fd < 0) return NULL;
        if (s[0]) {
            path_of(p->pid, a, c->path, c->dirfd, desc); bool ok = below(desc);
            if (c->path2 >= 0) { path_of(p->pid, a, c->path2, c->dirfd2, q); ok |= below(q); strncat(desc, " -> ", PATH_MAX - strlen(desc) - 1); strncat(desc, q, PATH_MAX - strlen(desc) - 1); }
            return ok && strchr(classes, 'f') ? c : NULL;
        }
    }
    char w[32]; snprintf(w, sizeof w, "fd/%d", (int) a[c->fd]); lnk(p->pid, w, desc, PATH_MAX);
    if (!strncmp(desc, "pipe:", 5)) { snprintf(desc, PATH_MAX, "pipe fd %d", (int) a[c->fd]); return strchr(classes, 'p') ? c : NULL; }
    if (!strncmp(desc, "socket:", 7)) { snprintf(desc, PATH_MAX, "socket fd %d", (int) a[c->fd]); return strchr(classes, 's') ? c : NULL; }
    return below(desc) && strchr(classes, 'f') ? c : NULL;
}
static void setreg(pid_t pid, bool nr, int arg, long v) {
    struct user_regs_struct r; if (ptrace(PTRACE_GETREGS, pid, 0, &r)) return;
    unsigned long long *ar[] = {&r.rdi, &r.rsi, &r.rdx, &r.r10, &r.r8, &r.r9};
    if (nr) r.orig_rax = v; else if (arg < 0) r.rax = v; else *ar[arg] = v;
    ptrace(PTRACE_SETREGS, pid, 0, &r);
}
enum { NONE, FAIL, FAILCLOSE, KILLAFTER };
static void stop(proc_t *p) {
    struct ptrace_syscall_info si; memset(&si, 0, sizeof si);
    if (ptrace(PTRACE_GET_SYSCALL_INFO, p->pid, sizeof si, &si) < 0) return;
    if (si.op == PTRACE_SYSCALL_INFO_EXIT) {
        if (p->act == FAIL || p->act == FAILCLOSE) setreg(p->pid, false, -1, -p->err);
        if (p->act == KILLAFTER) killall();
        p->act = NONE;
        return;
    }
    if (si.op != PTRACE_SYSCALL_INFO_ENTRY) return;
    char desc[PATH_MAX]; uint64_t *a = (uint64_t*) si.entry.args;
    const call_t *c = eligible(p, si.entry.nr, a, desc);
    if (!c) return;
    long k = npoints++;
    if (logf_) { for (char *s = desc; *s; s++) if (*s == '\n' || *s == '\t') *s = '?'; fprintf(logf_, "%ld\t%d\t%s\t%s\t%s\t%ld\n", k, p->ord, p->exe, c->name, desc, c->len >= 0 ? (long) a[c->len] : -1L); fflush(logf_); }
    if (!strncmp(mode, "max:", 4)) { long m = atol(mode + 4); if (k >= point && c->len >= 0 && (long) a[c->len] > m) setreg(p->pid, false, c->len, m); return; }
    if (k != point) return;
    if (*more == ',') point = strtol(more + 1, (char**) &more, 10);
    char hs[16]; snprintf(hs, sizeof hs, "%d", hits++); setenv("FI_HIT", hs, 1); snprintf(hs, sizeof hs, "%d", mainpid); setenv("FI_MAIN", hs, 1);
    if (hook) { int st = system(hook); (void) st; }
    if (!strncmp(mode, "err:", 4)) {
        p->err = atol(mode + 4);
        if (c->nr == SYS_close) { p->act = FAILCLOSE; return; }
        p->act = FAIL; setreg(p->pid, true, 0, -1);
    }
    else if (!strcmp(mode, "short") || !strcmp(mode, "one") || !strcmp(mode, "torn")) {
        if (c->len >= 0 && a[c->len] > 1) setreg(p->pid, false, c->len, strcmp(mode, "one") ? a[c->len] / 2 : 1);
        if (!strcmp(mode, "torn")) p->act = KILLAFTER;
    }
    else if (!strncmp(mode, "hold:", 5)) { char f[PATH_MAX]; snprintf(f, sizeof f, "%s.held", mode + 5); int d = open(f, O_WRONLY | O_CREAT | O_CLOEXEC, 0644); if (d >= 0) close(d); held = p->pid; struct itimerval tv = {{0, 2000}, {0, 2000}}; setitimer(ITIMER_REAL, &tv, NULL); }
    else if (!strcmp(mode, "kill")) killall();
    else if (!strncmp(mode, "sig:", 4)) kill(mainpid, atoi(mode + 4));
    else if (!strcmp(mode, "killafter")) p->act = KILLAFTER;
}
int main(int argc, char **argv) {
    int o; const char *logn = NULL;
    while ((o = getopt(argc, argv, "+s:x:k:l:n:m:t:H:d1")) != -1) switch (o) {
        case 's': if (ndirs < 16) dirs[ndirs++] = optarg; break;
        case 'x': if (nnames < 16) names[nnames++] = optarg; break;
        case 'k': classes = optarg; break;
        case 'l': logn = optarg; break;
        case 'n': point = strtol(optarg, (char**) &more, 10); break;
        case 'm': mode = optarg; break;
        case 't': timeout_s = atof(optarg); break;
        case '1': first = true; break;
        case 'd': letgo = true; break;
        case 'H': hook = optarg; break;
        default: return 120;
    }
    if (logn && !(logf_ = fopen(logn, "we"))) return 120;
    mainpid = fork();
    if (!mainpid) { ptrace(PTRACE_TRACEME, 0, 0, 0); raise(SIGSTOP); execvp(argv[optind], argv + optind); _exit(127); }
    int st; if (waitpid(mainpid, &st, 0) < 0 || !WIFSTOPPED(st)) return 120;
    if (ptrace(PTRACE_SETOPTIONS, mainpid, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_TRACEFORK | PTRACE_O_TRACEVFORK | PTRACE_O_TRACECLONE | PTRACE_O_TRACEEXEC | PTRACE_O_EXITKILL)) return 120;
    get(mainpid);
    struct sigaction sa = {.sa_handler = on_alarm}; sigaction(SIGALRM, &sa, NULL);
    struct itimerval tv = {{0, 100000}, {(long) timeout_s, (long) ((timeout_s - (long) timeout_s) * 1e6)}}; setitimer(ITIMER_REAL, &tv, NULL);
    ptrace(PTRACE_SYSCALL, mainpid, 0, 0);
    int rc = 120; bool timedout = false; double end = now() + timeout_s;
    for (;;) {
        pid_t w = waitpid(-1, &st, __WALL);
        if (w < 0) { if (errno == EINTR) { if (alarmed) { alarmed = 0; if (now() >= end) { timedout = true; killall(); } else if (held && !access(mode + 5, F_OK)) { pid_t h = held; held = 0; ptrace(PTRACE_SYSCALL, h, 0, 0); } } continue; } break; }
        proc_t *p = get(w);
        if (WIFEXITED(st) || WIFSIGNALED(st)) { if (w == mainpid) rc = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st); p->pid = 0; continue; }
        if (!WIFSTOPPED(st)) continue;
        int sig = WSTOPSIG(st), ev = st >> 16, deliver = 0;
        if (sig == (SIGTRAP | 0x80)) stop(p);
        else if (ev == PTRACE_EVENT_EXEC) { exe_of(p); bool ok = !nnames; for (int i = 0; i < nnames; i++) if (!strcmp(names[i], p->exe)) ok = true; if (letgo && !ok) { ptrace(PTRACE_DETACH, w, 0, 0); p->pid = 0; continue; } }
        else if (ev) { if (ev == PTRACE_EVENT_FORK || ev == PTRACE_EVENT_VFORK || ev == PTRACE_EVENT_CLONE) { unsigned long n; if (!ptrace(PTRACE_GETEVENTMSG, w, 0, &n)) get(n); } }
        else if (sig == SIGSTOP && !p->entered) p->entered = true;
        else deliver = sig;
        if (w != held) ptrace(PTRACE_SYSCALL, w, 0, deliver);
    }
    if (logf_) { fprintf(logf_, "# end %ld\n", npoints); fclose(logf_); }
    return timedout ? 124 : rc;
}
