/* Preloaded: shows another time than the real one. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static long shift(clockid_t c) {
    static __thread long calls;
    const char *s = getenv("BC_CLOCK_SHIFT"), *t = getenv("BC_CLOCK_STEP");
    long n = s ? atol(s) : 0;
    if (c != CLOCK_REALTIME && c != CLOCK_REALTIME_COARSE) {
        if (c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID)
            return 0;
        /* These never run backwards. */
        n = n < 0 ? -n : n;
    }
    return n + (t ? atol(t) * ++calls : 0);
}

int clock_gettime(clockid_t c, struct timespec *t) {
    int r = syscall(SYS_clock_gettime, c, t);
    if (!r)
        t->tv_sec += shift(c);
    return r;
}

time_t time(time_t *p) {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (p)
        *p = t.tv_sec;
    return t.tv_sec;
}

int gettimeofday(struct timeval *v, void *z) {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    v->tv_sec = t.tv_sec;
    v->tv_usec = t.tv_nsec / 1000;
    return 0;
}
