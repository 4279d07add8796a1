// Virtual clock: while a mc::VirtualClock object lives, gettimeofday / clock_gettime / time report its time.
#pragma once
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
namespace mc {
struct VirtualClock
{
    static long long& us() { static long long v = 0; return v; }  // microseconds
    static bool& on() { static bool v = false; return v; }
    VirtualClock(long long start) { us() = start; on() = true; }
    ~VirtualClock() { on() = false; }
    static void advance(double sec) { us() += (long long)(sec * 1e6 + 0.5); }
};
}
extern "C" inline __attribute__((used)) int mc_gettime_real(clockid_t id, struct timespec* ts) { return (int)syscall(SYS_clock_gettime, id, ts); }
extern "C" __attribute__((used)) int clock_gettime(clockid_t id, struct timespec* ts) noexcept
{
    if (!mc::VirtualClock::on())
        return mc_gettime_real(id, ts);
    ts->tv_sec = mc::VirtualClock::us() / 1000000;
    ts->tv_nsec = (mc::VirtualClock::us() % 1000000) * 1000;
    return 0;
}
extern "C" __attribute__((used)) int gettimeofday(struct timeval* tv, void*) noexcept
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
extern "C" __attribute__((used)) time_t time(time_t* t) noexcept
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t)
        *t = ts.tv_sec;
    return ts.tv_sec;
}
