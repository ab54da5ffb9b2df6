// nap: sleep() and usleep() take $NAP_US microseconds (default 1000). A look at the file $NAP_MARK, if set, shows them to fi.
// NAP_STEPS=FILE: the steps (locks, allocations, output) of threads other than the first are written to FILE; before step
// NAP_STOP of them the thread makes FILE.held and waits for FILE.go.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
static void nap(void) { char *e = getenv("NAP_US"), *m = getenv("NAP_MARK"); long u = e ? atol(e) : 1000; struct timespec t = {u / 1000000, u % 1000000 * 1000}; if (m) access(m, F_OK); nanosleep(&t, NULL); }
unsigned sleep(unsigned n) { if (n) nap(); return 0; }
int usleep(useconds_t n) { if (n) nap(); return 0; }

static __thread int inside; static int count, on; __attribute__((constructor)) static void init(void) { on = getenv("NAP_STEPS") != NULL; }
static void step(const char *what) {
    if (!on || inside || getpid() == gettid()) return;
    inside = 1;
    const char *f = getenv("NAP_STEPS"), *s = getenv("NAP_STOP"); char b[4096];
    if (f) {
        int k = __atomic_fetch_add(&count, 1, __ATOMIC_SEQ_CST), d = open(f, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
        if (d >= 0) { int n = snprintf(b, sizeof b, "%d %s\n", k, what); if (write(d, b, n) < 0) {} close(d); }
        if (s && atoi(s) == k) {
            snprintf(b, sizeof b, "%s.held", f); d = open(b, O_WRONLY | O_CREAT | O_CLOEXEC, 0644); if (d >= 0) close(d);
            snprintf(b, sizeof b, "%s.go", f);
            for (int i = 0; i < 6000 && access(b, F_OK); i++) { struct timespec t = {0, 1000000}; nanosleep(&t, NULL); }
        }
    }
    inside = 0;
}
#define REAL(f) static __typeof__(f) *real; if (!real) real = dlsym(RTLD_NEXT, #f)
int pthread_mutex_lock(pthread_mutex_t *m) { REAL(pthread_mutex_lock); step("lock"); return real(m); }
int pthread_mutex_unlock(pthread_mutex_t *m) { REAL(pthread_mutex_unlock); int r = real(m); step("unlocked"); return r; }
extern void *__libc_malloc(size_t), *__libc_realloc(void*, size_t); extern void __libc_free(void*);
void *malloc(size_t n) { step("malloc"); return __libc_malloc(n); }
void *realloc(void *p, size_t n) { step("realloc"); return __libc_realloc(p, n); }
void free(void *p) { if (p) step("free"); __libc_free(p); }
int system(const char *c) { REAL(system); step("system"); return real(c); }
int fflush(FILE *f) { REAL(fflush); step("fflush"); return real(f); }
