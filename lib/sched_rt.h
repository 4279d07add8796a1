// Controlled scheduler and race detector for the real threads of the code under test (see sched_rt.cpp).
#pragma once
#include <cstddef>
#include <cstdint>
namespace sched
{
struct Options
{
    int (*choose)(int n) = nullptr;  // the explorer's choice
    int deviations = 2;              // how often the schedule may deviate from the default one
    bool spurious = false;           // condition variables may wake up spuriously (costs a deviation)
    int64_t clockTick = 0;           // > 0: virtual clock; every reading advances it by this many nanoseconds
    size_t objectSize = 0;           // atomics inside heap objects of this size are scheduling points
};
struct Stats
{
    uint64_t points = 0, switches = 0, accesses = 0, threads = 0, deviations = 0;
};
void begin(const Options&);  // from here on the calling thread and all threads it creates are controlled
Stats end();                 // all created threads have to be joined
int64_t now();               // virtual time in nanoseconds since begin()
void ignore(bool on);        // accesses of the calling thread are not recorded (harness code)
}
