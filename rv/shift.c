/* shifts the wall clock a process sees by RV_SHIFT seconds (preloaded by C35) */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <sys/time.h>
#include <time.h>

static long shift(void) {
    const char *s = getenv("RV_SHIFT");
    return s ? atol(s) : 0;
}

int clock_gettime(clockid_t c, struct timespec *t) {
    int (*f)(clockid_t, struct timespec *) = (int (*)(clockid_t, struct timespec *))dlsym(RTLD_NEXT, "clock_gettime");
    int r = f(c, t);
    if (r == 0 && c == CLOCK_REALTIME) t->tv_sec += shift();
    return r;
}

int gettimeofday(struct timeval *t, void *z) {
    struct timespec s;
    (void)z;
    int r = clock_gettime(CLOCK_REALTIME, &s);
    if (r == 0 && t) { t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; }
    return r;
}

time_t time(time_t *p) {
    struct timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    if (p) *p = s.tv_sec;
    return s.tv_sec;
}
