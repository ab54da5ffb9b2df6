// A child that follows a script: actor SCRIPT [REPORT]; operations separated by commas:
//   oN eN  write N bytes to standard output / error     rN  read up to N bytes     R  read until end of file
//   ci co ce  close a stream     xN  exit with status N     kN  die from signal N     p  pause 20 ms
// The report receives the number and a hash of the bytes read.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>

static unsigned long nread, hash = 5381, pos[3];
static const char *report;

static void put(int fd, long n) {
    static char b[65536];
    while (n > 0) {
        long k = n < (long) sizeof b ? n : (long) sizeof b;
        for (long i = 0; i < k; i++) b[i] = "abcdefghijklmnopqrstuvwxyz0123456789\n"[(pos[fd] + i) % 37];
        long w = write(fd, b, k);
        if (w < 0) return;
        pos[fd] += w;
        n -= w;
    }
}
static void get(long n) {
    static unsigned char b[65536];
    while (n) {
        long k = n < 0 || n > (long) sizeof b ? (long) sizeof b : n;
        long r = read(0, b, k);
        if (r <= 0) return;
        for (long i = 0; i < r; i++) hash = hash * 33 + b[i];
        nread += r;
        if (n > 0) n -= r;
    }
}
static void done(void) {
    if (!report) return;
    FILE *f = fopen(report, "w");
    if (!f) _exit(99);
    fprintf(f, "%lu %lu\n", nread, hash);
    fclose(f);
}
int main(int argc, char **argv) {
    report = argc > 2 ? argv[2] : NULL;
    char *s = strdup(argv[1]);
    for (char *t = strtok(s, ","); t; t = strtok(NULL, ",")) {
        switch (t[0]) {
            case 'o': put(1, atol(t + 1)); break;
            case 'e': put(2, atol(t + 1)); break;
            case 'r': get(atol(t + 1)); break;
            case 'R': get(-1); break;
            case 'c': close(t[1] == 'i' ? 0 : t[1] == 'o' ? 1 : 2); break;
            case 'p': usleep(20000); break;
            case 'x': done(); _exit(atoi(t + 1));
            case 'k': done(); signal(atoi(t + 1), SIG_DFL); raise(atoi(t + 1)); _exit(98);
        }
    }
    done();
    _exit(0);
}
