// rec: stands in for blogc (and blogc-runserver) and records what it was asked to do. The record is what it writes as its
// output file, and one line of $REC_LOG. With -p it becomes the real blogc ($REC_BLOGC).
// Record: sorted lines "D NAME=hex" (last one wins), "l", "e PATH", "t hex of the template" ("t -" outside $REC_ROOT),
// "s PATH" in order, "L hex of LC_ALL". Anything else on the command line is "? hex".
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>
static char *hex(const char *s, size_t n) { char *r = malloc(2 * n + 2), *p = r; for (size_t i = 0; i < n; i++) p += sprintf(p, "%02x", (unsigned char) s[i]); *p = 0; if (!n) strcpy(r, "-"); return r; }
static char *hx(const char *s) { return hex(s, strlen(s)); }
static char *slurp(int fd, size_t *n) { size_t cap = 1 << 16, k = 0; char *b = malloc(cap + 1); ssize_t r; while ((r = read(fd, b + k, cap - k)) > 0) { k += r; if (k == cap) b = realloc(b, (cap *= 2) + 1); } b[k] = 0; *n = k; return b; }
static char *lines[20000]; static int nl; static char *keys[20000];
static void add(char *key, char *v) { for (int i = 0; i < nl; i++) if (keys[i] && key && !strcmp(keys[i], key)) { lines[i] = v; return; } keys[nl] = key; lines[nl++] = v; }
static char *fmt(const char *f, const char *a, const char *b) { char *r; if (asprintf(&r, f, a, b) < 0) _exit(97); return r; }
static int cmp(const void *a, const void *b) { return strcmp(*(char**) a, *(char**) b); }
int main(int argc, char **argv) {
    const char *log = getenv("REC_LOG"), *root = getenv("REC_ROOT"), *real = getenv("REC_BLOGC"), *mode = getenv("REC_AS");
    char *out = NULL; int in = 0, print = 0, plain = mode && !strcmp(mode, "server");
    char *src[20000]; int ns = 0;
    if (plain) {
        FILE *f = fopen(log, "a"); fprintf(f, "server"); for (int i = 1; i < argc; i++) fprintf(f, " %s", hx(argv[i])); fprintf(f, "\n"); fclose(f);
        long w = getenv("REC_WAIT") ? atol(getenv("REC_WAIT")) : 150; struct timespec t = {w / 1000, w % 1000 * 1000000}; nanosleep(&t, NULL);
        if (getenv("REC_KILL")) raise(atoi(getenv("REC_KILL")));
        return atoi(getenv("REC_EXIT") ? getenv("REC_EXIT") : "0");
    }
    for (int i = 1; i < argc; i++) {
        char *a = argv[i];
        if (a[0] != '-' || !a[1]) { src[ns++] = a; continue; }
        char *v = NULL;
        if (strchr("etopD", a[1])) v = a[2] ? a + 2 : i + 1 < argc ? argv[++i] : "";
        switch (a[1]) {
            case 'D': { char *e = strchr(v, '='); if (!e) { add(NULL, fmt("? %s%s", hx(v), "")); break; } char *k = strndup(v, e - v); add(k, fmt("D %s=%s", k, hx(e + 1))); break; }
            case 'l': if (a[2]) add(NULL, fmt("? %s%s", hx(a), "")); else add("-l", "l"); break;
            case 'i': if (a[2]) add(NULL, fmt("? %s%s", hx(a), "")); else in = 1; break;
            case 'e': add("-e", fmt("e %s%s", hx(v), "")); break;
            case 'o': out = v; break;
            case 'p': print = 1; break;
            case 't': {
                size_t k = root ? strlen(root) : 0, n = 0; char *c = NULL; int fd;
                if (root && !strncmp(v, root, k) && v[k] == '/') { fd = open(v, O_RDONLY); if (fd < 0) { fprintf(stderr, "no template %s\n", v); return 1; } c = slurp(fd, &n); close(fd); add("-t", fmt("t %s%s", hex(c, n), "")); }
                else if (access(v, R_OK)) { fprintf(stderr, "no template %s\n", v); return 1; }
                else add("-t", "t -");
                break;
            }
            default: add(NULL, fmt("? %s%s", hx(a), ""));
        }
    }
    if (print) { argv[0] = (char*) real; execv(real, argv); return 96; }
    if (getenv("LC_ALL")) add("LC_ALL", fmt("L %s%s", hx(getenv("LC_ALL")), ""));
    // not documented: another name for MAKE_RULE, and the order of a list of one
    int list = 0; for (int i = 0; i < nl; i++) list |= keys[i] && !strcmp(keys[i], "-l");
    for (int i = 0; i < nl; i++) if (keys[i] && (!strcmp(keys[i], "IS_POST") || !list && (!strcmp(keys[i], "FILTER_REVERSE") || !strcmp(keys[i], "FILTER_SORT")))) { lines[i] = lines[--nl]; keys[i] = keys[nl]; i--; }
    qsort(lines, nl, sizeof *lines, cmp);
    if (in) { size_t n; char *b = slurp(0, &n); for (char *p = b, *q; *p; p = q) { q = strchr(p, '\n'); if (q) *q++ = 0; else q = p + strlen(p); if (*p) src[ns++] = p; } }
    for (int i = 0; i < ns; i++) { if (access(src[i], R_OK)) { fprintf(stderr, "no source %s\n", src[i]); return 1; } lines[nl++] = fmt("s %s%s", hx(src[i]), ""); }
    if (!out) return 95;
    for (char *p = out + 1; *p; p++) if (*p == '/') { *p = 0; if (mkdir(out, 0777) && errno != EEXIST) { perror(out); return 94; } *p = '/'; }
    FILE *f = fopen(out, "w"); if (!f) { perror(out); return 93; }
    for (int i = 0; i < nl; i++) fprintf(f, "%s\n", lines[i]);
    fclose(f);
    return 0;
}
