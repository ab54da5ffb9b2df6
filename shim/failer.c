// failer: runs as blogc; the $FAIL_AT-th invocation (counted in $FAIL_COUNT) ends as $FAIL_HOW says:
//   xN  at once with status N; kN  by signal N; mN  with status N and a message;
//   pN  runs blogc, cuts its output file in half and ends with status N; qN  the same, ended by signal N
#define _GNU_SOURCE
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
int main(int argc, char **argv) {
    const char *real = getenv("FAIL_REAL"), *how = getenv("FAIL_HOW");
    int f = open(getenv("FAIL_COUNT"), O_RDWR | O_CREAT | O_APPEND, 0666), n;
    char *out = NULL, c = 'r';
    for (int i = 1; i < argc; i++) { if (!strcmp(argv[i], "-o") && i + 1 < argc) { out = argv[i + 1]; c = 'o'; } if (!strcmp(argv[i], "-p")) c = 'p'; }
    flock(f, LOCK_EX); write(f, &c, 1); n = lseek(f, 0, SEEK_END); flock(f, LOCK_UN); close(f);
    argv[0] = (char*) real;
    if (n == atoi(getenv("FAIL_AT"))) {
        int s = atoi(how + 1);
        if (how[0] == 'p' || how[0] == 'q') {
            pid_t p = fork();
            if (!p) { execv(real, argv); _exit(96); }
            waitpid(p, NULL, 0);
            struct stat st;
            if (out && !stat(out, &st)) truncate(out, st.st_size / 2);
        }
        if (how[0] == 'm') fprintf(stderr, "the reason\n");
        fflush(stderr);
        if (how[0] == 'k' || how[0] == 'q') { signal(s, SIG_DFL); kill(getpid(), s); pause(); }
        _exit(s);
    }
    execv(real, argv);
    return 95;
}
