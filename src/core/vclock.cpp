#include "vclock.h"
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static const int64_t kMonoBase = 1000ll * 1000000000ll;
static const int64_t kRealBase = 1750000000ll * 1000000000ll;
static int64_t s_off = 0; // ns

extern "C" __attribute__((visibility("default"))) int clock_gettime(clockid_t id, struct timespec *ts)
{
    int64_t v;
    switch (id) {
    case CLOCK_MONOTONIC:
    case CLOCK_MONOTONIC_COARSE:
    case CLOCK_MONOTONIC_RAW:
    case CLOCK_BOOTTIME:
        v = kMonoBase + s_off;
        break;
    case CLOCK_REALTIME:
    case CLOCK_REALTIME_COARSE:
        v = kRealBase + s_off;
        break;
    default:
        return int(syscall(SYS_clock_gettime, id, ts));
    }
    ts->tv_sec = v / 1000000000ll;
    ts->tv_nsec = v % 1000000000ll;
    return 0;
}

extern "C" __attribute__((visibility("default"))) int gettimeofday(struct timeval *tv, void *)
{
    int64_t v = kRealBase + s_off;
    if (void *volatile q = tv; q) {
        tv->tv_sec = v / 1000000000ll;
        tv->tv_usec = (v % 1000000000ll) / 1000;
    }
    return 0;
}

extern "C" __attribute__((visibility("default"))) time_t time(time_t *t)
{
    time_t v = time_t((kRealBase + s_off) / 1000000000ll);
    if (t)
        *t = v;
    return v;
}

namespace vclock {
void advanceMs(int64_t ms) { s_off += ms * 1000000ll; }
int64_t nowMs() { return (kMonoBase + s_off) / 1000000ll; }
int64_t wallSecs() { return (kRealBase + s_off) / 1000000000ll; }
double realSecs()
{
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return double(ts.tv_sec) + double(ts.tv_nsec) / 1e9;
}
}
