/* LD_PRELOAD shim: the simulator owns the clocks of the worker process.
 * Until simclk_set() is called the real wall clock shows through. Monotonic and CPU clocks are real (the harness's
 * watchdogs use them) except between simclk_mono() and simclk_mono_off(): there every read shows a clock that
 * advances one microsecond per read from the planned value. */
#define _GNU_SOURCE
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static volatile int on = 0, mono_on = 0;
static volatile long long now_ns = 0, mono_ns = 0;
static volatile long reads = 0;

static volatile long long step_ns = 0, seen[4096];

void simclk_set(long long ns) { now_ns = ns; on = 1; }
/* from now on the clock moves by ns after every reading; starts a new log of readings */
void simclk_step(long long ns) { step_ns = ns; reads = 0; }
long long simclk_seen(long i) { return seen[i & 4095]; }
void simclk_off(void) { on = 0; }
long simclk_reads(void) { return reads; }
void simclk_mono(long long ns) { mono_ns = ns; mono_on = 1; }
void simclk_mono_add(long long ns) { mono_ns += ns; }
void simclk_mono_off(void) { mono_on = 0; }

static void put(struct timespec *ts, long long ns)
{
    long long s = ns / 1000000000LL, r = ns % 1000000000LL;
    if (r < 0) { r += 1000000000LL; s -= 1; }
    ts->tv_sec = s;
    ts->tv_nsec = r;
}

int clock_gettime(clockid_t c, struct timespec *ts)
{
    if (on && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI)) {
        seen[reads++ & 4095] = now_ns;
        put(ts, now_ns);
        now_ns += step_ns;
        return 0;
    }
    if (mono_on) {
        mono_ns += 1000;
        put(ts, mono_ns);
        return 0;
    }
    return syscall(SYS_clock_gettime, c, ts);
}

time_t time(time_t *t)
{
    struct timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    if (t) *t = s.tv_sec;
    return s.tv_sec;
}

int gettimeofday(struct timeval *tv, void *z)
{
    struct timespec s;
    (void)z;
    clock_gettime(CLOCK_REALTIME, &s);
    tv->tv_sec = s.tv_sec;
    tv->tv_usec = s.tv_nsec / 1000;
    return 0;
}
