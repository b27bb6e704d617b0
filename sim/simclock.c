/* Interposed wall clock: CLOCK_REALTIME, gettimeofday and time() are the
 * simulator's once it has been switched on; everything else is untouched. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <time.h>
#include <sys/time.h>

static volatile int on = 0;
static volatile long long now_ns = 0;
static volatile unsigned long long reads = 0;
static int (*real_cg)(clockid_t, struct timespec *) = 0;

void simclock_set(long long ns) { now_ns = ns; on = 1; }
void simclock_off(void) { on = 0; }
unsigned long long simclock_reads(void) { return reads; }

int clock_gettime(clockid_t id, struct timespec *ts) {
    if (on && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
        reads++;
        long long s = now_ns / 1000000000LL, n = now_ns % 1000000000LL;
        if (n < 0) { n += 1000000000LL; s--; }
        ts->tv_sec = s; ts->tv_nsec = n;
        return 0;
    }
    if (!real_cg) real_cg = dlsym(RTLD_NEXT, "clock_gettime");
    return real_cg(id, ts);
}
int gettimeofday(struct timeval *tv, void *tz) {
    struct timespec ts;
    (void)tz;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *t) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
