// P16: multi-threaded solving under a controlled scheduler (continuous time)
// MC_LIBS: -Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=__cxa_guard_acquire,--wrap=__cxa_guard_release -rdynamic -lipopt -llapack -lblas -ldl
// MC_SAN: -O1 -g1 -no-pie -fno-pie
// MC_INSTR: -fsanitize=thread
// MC_SRCS: lib/sched_rt.cpp
// MC_SHARDS: 16
// MC_SHARDS_THOROUGH: 64
#include "mp_runs.h"
typedef Run<2, 1, true> C;
MC_SUITE(continuous, "continuous-time systems: 4 algorithms, 2..3 workers, one iteration and one MPC iteration, 1 (thorough 2) deviations")
{
    int alg = c.pick<int>({S::ILQR, S::GNMS, S::MS_ILQR, S::GNMS_M_OL});
    Ref r = base(alg, 2, 1, 0, true);
    lineSearch(r, c.pick<int>({0, 2}));
    int n = c.pick<int>({2, 3});
    C::check(c, r, {ITER, MPC}, n, c.thorough ? 2 : 1, false);
}
