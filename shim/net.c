// net: LD_PRELOAD for blogc-runserver. Sockets are stand-ins (nothing is opened on the network); what is asked of them is
// written to $NET_LOG. $NET_ADDRS: the addresses the host name has, a word over {4,6}; default: the real (numeric) lookup.
// $NET_FAIL: words "g" (lookup), "sN", "oN", "bN" (socket, setsockopt, bind of address N), "l" (listen).
// The first client asks for /id and gets its answer; all later ones connect and stay silent. Once the server does not accept
// any more, the number of connections that it is serving is logged and the process ends with status 77.
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <poll.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>
static int nsock, idx_of[4096], accepts, first = -1, served, own = -1;
static void say(const char *f, ...) {
    static int fd = -1; const char *p = getenv("NET_LOG"); char b[8192]; va_list a;
    if (fd < 0 && p) fd = open(p, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666);
    va_start(a, f); int n = vsnprintf(b, sizeof b, f, a); va_end(a);
    if (fd >= 0 && n > 0 && write(fd, b, n < (int) sizeof b ? n : (int) sizeof b - 1)) {}
}
static int fails(char c, int i) {
    const char *p = getenv("NET_FAIL"); char w[16];
    if (!p) return 0;
    if (i < 0) snprintf(w, sizeof w, "%c", c); else snprintf(w, sizeof w, "%c%d", c, i);
    for (size_t n = strlen(w); (p = strstr(p, w)); p++) if (p[n] == 0 || p[n] == ' ') return 1;
    return 0;
}
static void hex(const char *tag, const char *s, int n) {
    char b[8000]; int k = 0;
    if (!s) { say("%s none\n", tag); return; }
    for (int i = 0; i < n && k < 7990; i++) k += sprintf(b + k, "%02x", (unsigned char) s[i]);
    b[k] = 0; say("%s %s\n", tag, k ? b : "-");
}
int getaddrinfo(const char *node, const char *service, const struct addrinfo *hints, struct addrinfo **res) {
    hex("host", node, node ? strlen(node) : 0); hex("port", service, service ? strlen(service) : 0);
    if (fails('g', -1)) return EAI_NONAME;
    const char *a = getenv("NET_ADDRS");
    if (!a) return ((int (*)(const char*, const char*, const struct addrinfo*, struct addrinfo**)) dlsym(RTLD_NEXT, "getaddrinfo"))(node, service, hints, res);
    struct addrinfo **p = res; *res = NULL; own = 1;
    for (int i = 0; a[i]; i++) {
        struct addrinfo *x = calloc(1, sizeof *x); x->ai_socktype = SOCK_STREAM; x->ai_protocol = IPPROTO_TCP;
        if (a[i] == '4') { struct sockaddr_in *s = calloc(1, sizeof *s); s->sin_family = x->ai_family = AF_INET; s->sin_port = htons(atoi(service)); s->sin_addr.s_addr = htonl(0x7f00000a + i); x->ai_addr = (void*) s; x->ai_addrlen = sizeof *s; }
        else { struct sockaddr_in6 *s = calloc(1, sizeof *s); s->sin6_family = x->ai_family = AF_INET6; s->sin6_port = htons(atoi(service)); s->sin6_addr.s6_addr[0] = 0xfd; s->sin6_addr.s6_addr[15] = 0xa0 + i; x->ai_addr = (void*) s; x->ai_addrlen = sizeof *s; }
        *p = x; p = &x->ai_next;
    }
    return 0;
}
void freeaddrinfo(struct addrinfo *r) {
    if (own < 0) { ((void (*)(struct addrinfo*)) dlsym(RTLD_NEXT, "freeaddrinfo"))(r); return; }
    while (r) { struct addrinfo *n = r->ai_next; free(r->ai_addr); free(r); r = n; }
}
int socket(int d, int t, int p) {
    if (d != AF_INET && d != AF_INET6) return ((int (*)(int, int, int)) dlsym(RTLD_NEXT, "socket"))(d, t, p);
    int i = nsock++;
    if (fails('s', i)) { errno = EAFNOSUPPORT; return -1; }
    int fd = open("/dev/null", O_RDWR);
    if (fd >= 0 && fd < 4096) idx_of[fd] = i + 1;
    say("socket %d %d\n", i, d == AF_INET ? 4 : 6);
    return fd;
}
int setsockopt(int fd, int l, int o, const void *v, socklen_t n) { if (fd >= 0 && fd < 4096 && idx_of[fd] && fails('o', idx_of[fd] - 1)) { errno = ENOPROTOOPT; return -1; } return 0; }
int bind(int fd, const struct sockaddr *a, socklen_t n) {
    char b[64] = "?"; int i = idx_of[fd] - 1, port = 0;
    if (i < 0) return ((int (*)(int, const struct sockaddr*, socklen_t)) dlsym(RTLD_NEXT, "bind"))(fd, a, n);
    if (a->sa_family == AF_INET) { inet_ntop(AF_INET, &((struct sockaddr_in*) a)->sin_addr, b, sizeof b); port = ntohs(((struct sockaddr_in*) a)->sin_port); }
    if (a->sa_family == AF_INET6) { inet_ntop(AF_INET6, &((struct sockaddr_in6*) a)->sin6_addr, b, sizeof b); port = ntohs(((struct sockaddr_in6*) a)->sin6_port); }
    if (fails('b', i)) { errno = EADDRINUSE; return -1; }
    say("bind %d %s %d\n", i, b, port);
    return 0;
}
int listen(int fd, int n) {
    if (fd < 0 || fcntl(fd, F_GETFD) < 0) { errno = EBADF; say("listen closed\n"); return -1; }
    if (fails('l', -1)) { errno = EADDRINUSE; return -1; }
    say("listen %d\n", idx_of[fd] - 1);
    return 0;
}
static long number(const char *file, const char *key) {
    char p[128], b[4096]; snprintf(p, sizeof p, "/proc/self/task/%d/%s", (int) getpid(), file);
    int f = open(p, O_RDONLY); int n = read(f, b, sizeof b - 1); close(f); b[n < 0 ? 0 : n] = 0;
    char *q = strstr(b, key); if (!q) return -1; q += strlen(key); while (*q == ' ' || *q == '\t' || *q == ':') q++;
    return *q >= '0' && *q <= '9' ? atol(q) : *q;
}
static void *watch(void *x) {
    long last = -1; int same = 0;
    while (1) {
        usleep(10000);
        long c = number("status", "\nvoluntary_ctxt_switches"); long s = number("status", "\nState");
        if (s == 'S' && c == last) same++; else same = 0;
        last = c;
        if (same >= 4) {
            int n = 0; DIR *d = opendir("/proc/self/task"); struct dirent *e; while ((e = readdir(d))) if (e->d_name[0] != '.') n++;
            say("threads %d\n", n - 2); _exit(77);
        }
    }
}
static int take(int fd) {
    if (fd < 0 || fd >= 4096 || !idx_of[fd] || fcntl(fd, F_GETFD) < 0) { errno = EBADF; say("accept bad\n"); return -1; }
    int sv[2];
    if (accepts == 0) say("accept %d\n", idx_of[fd] - 1);
    accepts++;
    if (accepts == 2 && !served) {
        char b[4096]; int n = 0, r; struct pollfd q = {first, POLLIN};
        while (n < 4000 && poll(&q, 1, 10000) > 0 && (r = read(first, b + n, 4000 - n)) > 0) n += r;
        served = 1; close(first); hex("answer", b, n);
        pthread_t t; ((int (*)(pthread_t*, const void*, void *(*)(void*), void*)) dlsym(RTLD_NEXT, "pthread_create"))(&t, NULL, watch, NULL);
    }
    if (accepts > 1100) { say("threads many\n"); _exit(77); }
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) { say("no pair\n"); _exit(78); }
    if (accepts == 1) { first = sv[1]; if (write(sv[1], "GET /id HTTP/1.1\r\n\r\n", 20)) {} }
    return sv[0];
}
static void fill(struct sockaddr *a, socklen_t *n) { struct sockaddr_in s = {.sin_family = AF_INET, .sin_port = htons(9)}; s.sin_addr.s_addr = htonl(0x7f000001); if (a && n) { memset(a, 0, *n); memcpy(a, &s, *n < sizeof s ? *n : sizeof s); } }
int accept(int fd, struct sockaddr *a, socklen_t *n) { fill(a, n); return take(fd); }
int accept4(int fd, struct sockaddr *a, socklen_t *n, int f) { fill(a, n); return take(fd); }
