/* Simulated wall clock, preloaded into the interpreters: every way to read it gives VERIF_CLOCK (seconds since 1970, as
 * set last by verif_clock_set), advancing by a millisecond per reading. Monotonic clocks are the real ones. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <sys/time.h>
#include <time.h>

static long long now_ms = 0;
static unsigned long long readings = 0;

__attribute__((constructor)) static void init(void)
{
    const char *s = getenv("VERIF_CLOCK");
    if (s)
        now_ms = atoll(s) * 1000;
}

void verif_clock_set(long long sec) { now_ms = sec * 1000; }
unsigned long long verif_clock_readings(void) { return readings; }

static void get(long long *sec, long *nsec)
{
    long long ms = now_ms++;
    long long s = ms / 1000, r = ms % 1000;
    if (r < 0) {
        r += 1000;
        s -= 1;
    }
    readings++;
    *sec = s;
    *nsec = (long)r * 1000000;
}

int clock_gettime(clockid_t id, struct timespec *tp)
{
    static int (*real)(clockid_t, struct timespec *);
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) {
        long long s;
        get(&s, &tp->tv_nsec);
        tp->tv_sec = s;
        return 0;
    }
    if (!real)
        real = (int (*)(clockid_t, struct timespec *))dlsym(RTLD_NEXT, "clock_gettime");
    return real(id, tp);
}

int gettimeofday(struct timeval *tv, void *tz)
{
    long long s;
    long n;
    (void)tz;
    get(&s, &n);
    tv->tv_sec = s;
    tv->tv_usec = n / 1000;
    return 0;
}

time_t time(time_t *t)
{
    long long s;
    long n;
    get(&s, &n);
    if (t)
        *t = s;
    return s;
}
