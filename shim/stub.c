// stub: stands in for the programs that blogc-git-receiver runs. Called by the name it is to play, it appends
// "name<TAB>cwd<TAB>hex(arg)..." to $STUB_DIR/log and then behaves as the file $STUB_DIR/<name> says (see below).
//   git init ... PATH    makes a bare repository (no hooks/ if $STUB_DIR/nohooks exists)
//   git archive ... REF  writes $STUB_DIR/tars/REF; 'archive0', 'archivehalf', 'archiveodd' in $STUB_DIR/fail: fails before
//                        any output, after whole blocks, in the middle of a block
//   git config ... KEY   prints $STUB_DIR/config/KEY
//   git push ...         nothing; 'push' in fail: fails
//   make, gmake, blogc-make  copies ./content to OUTPUT_DIR as the first word of ./Makefile or ./blogcfile says:
//                        ok, fail (after half of the files), failnone (before any), nothing (succeeds without output)
//   git-shell, others    nothing
// $STUB_DIR/fail may hold the name of a program (or "git init", ...) that fails at once.
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
static char dir[PATH_MAX], failing[4096];
static char *slurp(const char *p, size_t *n) {
    int f = open(p, O_RDONLY); if (f < 0) return NULL;
    struct stat st; fstat(f, &st); char *b = malloc(st.st_size + 1); ssize_t r = read(f, b, st.st_size); close(f);
    if (r < 0) r = 0; b[r] = 0; if (n) *n = r; return b;
}
static bool fails(const char *what) { char t[256]; snprintf(t, sizeof t, "\n%s\n", what); return strstr(failing, t) != NULL; }
static void mkdirs(const char *p) { char t[PATH_MAX]; snprintf(t, sizeof t, "%s", p); for (char *q = t + 1; *q; q++) if (*q == '/') { *q = 0; mkdir(t, 0777); *q = '/'; } mkdir(t, 0777); }
static void put(const char *p, const char *b, size_t n) { int f = open(p, O_WRONLY | O_CREAT | O_TRUNC, 0666); if (f >= 0) { while (n) { ssize_t r = write(f, b, n); if (r <= 0) _exit(9); b += r; n -= r; } close(f); } else _exit(9); }
static void putf(const char *d, const char *n, const char *b) { char t[PATH_MAX]; snprintf(t, sizeof t, "%s/%s", d, n); put(t, b, strlen(b)); }
static int cmp(const void *a, const void *b) { return strcmp(*(char**) a, *(char**) b); }
static int left;
static void copy(const char *from, const char *to) {
    mkdirs(to);
    DIR *d = opendir(from); if (!d) return;
    char *names[256]; int n = 0; struct dirent *e;
    while ((e = readdir(d)) && n < 256) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) names[n++] = strdup(e->d_name);
    closedir(d); qsort(names, n, sizeof *names, cmp);
    for (int i = 0; i < n; i++) {
        char f[PATH_MAX], t[PATH_MAX], l[PATH_MAX]; struct stat st;
        snprintf(f, sizeof f, "%s/%s", from, names[i]); snprintf(t, sizeof t, "%s/%s", to, names[i]);
        if (lstat(f, &st)) continue;
        if (left-- == 0) _exit(2);
        if (S_ISLNK(st.st_mode)) { ssize_t k = readlink(f, l, sizeof l - 1); if (k > 0) { l[k] = 0; symlink(l, t); } }
        else if (S_ISDIR(st.st_mode)) copy(f, t);
        else { size_t k; char *b = slurp(f, &k); if (b) put(t, b, k); }
    }
}
int main(int argc, char **argv) {
    const char *name = strrchr(argv[0], '/'); name = name ? name + 1 : argv[0];
    const char *sd = getenv("STUB_DIR"); if (!sd) return 120;
    snprintf(dir, sizeof dir, "%s", sd);
    char p[PATH_MAX * 2], cwd[PATH_MAX] = "?";
    snprintf(p, sizeof p, "%s/fail", dir); char *fl = slurp(p, NULL); snprintf(failing, sizeof failing, "\n%s\n", fl ? fl : "");
    getcwd(cwd, sizeof cwd);
    char *line = malloc(1 << 20); size_t n = sprintf(line, "%s\t%s", name, cwd);
    for (int i = 1; i < argc; i++) { line[n++] = '\t'; for (char *c = argv[i]; *c && n < (1 << 20) - 8; c++) n += sprintf(line + n, "%02x", (unsigned char) *c); if (!*argv[i]) line[n++] = '-'; }
    line[n++] = '\n';
    snprintf(p, sizeof p, "%s/log", dir); int f = open(p, O_WRONLY | O_CREAT | O_APPEND, 0666); if (f < 0 || write(f, line, n) != n) return 121; close(f);
    if (fails(name)) return 3;
    const char *sub = ""; int si = 0;
    for (int i = 1; i < argc; i++) { if (!strcmp(argv[i], "-C") || !strcmp(argv[i], "-c")) { i++; continue; } if (argv[i][0] != '-') { sub = argv[i]; si = i; break; } }
    if (!strcmp(name, "git")) {
        char t[64]; snprintf(t, sizeof t, "git %s", sub); if (fails(t)) return 3;
        const char *out = NULL, *arg = NULL, *last = NULL;
        for (int i = si + 1; i < argc && si; i++) {
            if (!strcmp(argv[i], "-o") && i + 1 < argc) { out = argv[++i]; continue; }
            if (!strncmp(argv[i], "--output=", 9)) { out = argv[i] + 9; continue; }
            if (argv[i][0] == '-') continue;
            if (!arg) arg = argv[i];
            last = argv[i];
        }
        if (!strcmp(sub, "init")) {
            const char *r = last ? last : "."; mkdirs(r); putf(r, "HEAD", "ref: refs/heads/master\n"); putf(r, "config", "[core]\n\tbare = true\n");
            char h[PATH_MAX]; snprintf(h, sizeof h, "%s/objects", r); mkdir(h, 0777); snprintf(h, sizeof h, "%s/refs", r); mkdir(h, 0777);
            snprintf(p, sizeof p, "%s/nohooks", dir); if (access(p, F_OK)) { snprintf(h, sizeof h, "%s/hooks", r); mkdir(h, 0777); putf(h, "pre-receive.sample", "#!/bin/sh\n"); }
            struct stat st; return stat(r, &st) || !S_ISDIR(st.st_mode) ? 128 : 0;
        }
        if (!strcmp(sub, "archive")) {
            if (fails("archive0")) { fprintf(stderr, "fatal: archive\n"); return 128; }
            snprintf(p, sizeof p, "%s/tars/%s", dir, arg ? arg : ""); size_t k; char *b = arg && !strchr(arg, '/') ? slurp(p, &k) : NULL;
            if (!b) { fprintf(stderr, "fatal: not a valid object name: %s\n", arg ? arg : ""); return 128; }
            bool half = fails("archivehalf"), odd = fails("archiveodd");
            if (half) k = k / 2 / 512 * 512; else if (odd) k = k / 2 / 512 * 512 + 100;
            int o = out ? open(out, O_WRONLY | O_CREAT | O_TRUNC, 0666) : 1; if (o < 0) return 128;
            for (size_t w = 0; w < k;) { ssize_t r = write(o, b + w, k - w); if (r <= 0) return 128; w += r; }
            return half || odd ? 128 : 0;
        }
        if (!strcmp(sub, "config")) { snprintf(p, sizeof p, "%s/config/%s", dir, last ? last : ""); size_t k; char *b = last && !strchr(last, '/') ? slurp(p, &k) : NULL; if (!b) return 1; write(1, b, k); return 0; }
        return 0;
    }
    if (!strcmp(name, "make") || !strcmp(name, "gmake") || !strcmp(name, "blogc-make")) {
        const char *od = getenv("OUTPUT_DIR"); bool bm = name[0] == 'b';
        for (int i = 1; i < argc; i++) { if (!strcmp(argv[i], "-f") && i + 1 < argc && !strcmp(argv[i + 1], "/dev/null")) return 0; if (!strcmp(argv[i], "-v") && bm) return 0; if (!bm && !strncmp(argv[i], "OUTPUT_DIR=", 11)) od = argv[i] + 11; }
        char *b = slurp(bm ? "blogcfile" : "Makefile", NULL); if (!b && !bm) b = slurp("GNUMakefile", NULL);
        if (!b || !od) return 2;
        if (!strncmp(b, "failnone", 8)) return 2;
        if (!strncmp(b, "nothing", 7)) return 0;
        left = !strncmp(b, "fail", 4) ? 2 : -1;
        copy("content", od);
        return !strncmp(b, "fail", 4) ? 2 : 0;
    }
    return 0;
}
