// What a command must not depend on: where its memory is, and what time it is.
//
// Every run of a command in this process starts at another stack address and at another time; processes get
// another time from their environment (and other addresses from the kernel).
#pragma once
#include <alloca.h>
#include <cstdlib>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

namespace world
{
inline long skew = 0; // seconds
inline int raw (clockid_t c, timespec *t) { return (int) syscall (SYS_clock_gettime, c, t); }
template<typename F>
__attribute__ ((noinline)) auto elsewhere (unsigned serial, F f)
{
    volatile char *p = (volatile char *) alloca (16 + 64 * (serial % 61) + 4096 * (serial % 7));
    p[0] = 0;
    skew = 3607L * (serial % 1009);
    struct Back { ~Back () { skew = 0; } } b;
    return f ();
}
inline void from_environment () { if (const char *s = getenv ("MC_SKEW")) skew = atol (s); }
}
extern "C"
{
__attribute__ ((visibility ("default"), used)) int clock_gettime (clockid_t c, timespec *t) noexcept
{
    const int r = world::raw (c, t);
    if (!r) t->tv_sec += world::skew;
    return r;
}
__attribute__ ((visibility ("default"), used)) time_t time (time_t *p) noexcept
{
    timespec t; clock_gettime (CLOCK_REALTIME, &t);
    if (p) *p = t.tv_sec;
    return t.tv_sec;
}
__attribute__ ((visibility ("default"), used)) int gettimeofday (timeval *v, void *) noexcept
{
    timespec t; clock_gettime (CLOCK_REALTIME, &t);
    v->tv_sec = t.tv_sec; v->tv_usec = t.tv_nsec / 1000;
    return 0;
}
}
