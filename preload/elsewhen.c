/* Another date, process id, host, user and number of processors, for one process. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <sched.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

static long shift(void) {
    const char *s = getenv("VP_DAYS");
    return s ? atol(s) * 86400L : 0;
}
int clock_gettime(clockid_t c, struct timespec *t) {
    long r = syscall(SYS_clock_gettime, c, t);
    if (r == 0 && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) t->tv_sec += shift();
    return r;
}
int gettimeofday(struct timeval *restrict t, void *restrict z) {
    struct timespec s;
    (void)z;
    clock_gettime(CLOCK_REALTIME, &s);
    t->tv_sec = s.tv_sec;
    t->tv_usec = s.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *p) {
    struct timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    if (p) *p = s.tv_sec;
    return s.tv_sec;
}
pid_t getpid(void) { return (pid_t)(1 + (shift() / 86400L & 0x7fff)); }
uid_t getuid(void) { return 1000 + (uid_t)(shift() / 86400L & 0xff); }
int gethostname(char *s, size_t n) {
    strncpy(s, shift() & 86400L ? "elsewhere" : "somewhere", n);
    return 0;
}
