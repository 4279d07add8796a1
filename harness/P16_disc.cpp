// P16: multi-threaded solving under a controlled scheduler, compared with single-threaded solving (discrete time)
// MC_LIBS: -Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=__cxa_guard_acquire,--wrap=__cxa_guard_release -rdynamic -lipopt -llapack -lblas -ldl
// MC_SAN: -O1 -g1 -no-pie -fno-pie
// MC_INSTR: -fsanitize=thread
// MC_SRCS: lib/sched_rt.cpp
// MC_SHARDS: 16
// MC_SHARDS_THOROUGH: 64
#include "mp_runs.h"
typedef Run<2, 1, false> D;
MC_SUITE(start_stop, "construction and destruction with 2..4 workers, 3 (thorough 4) deviations from the default schedule, also with spurious wake-ups")
{
    int n = c.pick<int>({2, 3, 4});
    bool sp = c.flip();
    D::check(c, base(S::GNMS, 2, 1, 0, false), {}, n, (c.thorough ? 4 : 3), sp);
}
MC_SUITE(algorithms, "7 algorithms x 1..4 stages x shot lengths x line searches x 2..3 workers, one iteration, 1 (thorough 2) deviations")
{
    int alg = c.choose(7);
    int K = c.pick<int>({1, 2, 3, 4});
    int shot = single(alg) ? 1 : c.pick<int>({1, 2, 4});
    int n = c.pick<int>({2, 3});
    Ref r = base(alg, K, shot, 0, false);
    lineSearch(r, c.choose(6));
    D::check(c, r, {ITER}, n, c.thorough ? 2 : 1, false);
}
MC_SUITE(histories, "all algorithms, sequences of solver operations, 2 workers, 1 (thorough 2) deviations")
{
    int alg = c.choose(7);
    std::vector<std::vector<Op>> seqs = {{ITER, ITER, SPLIT}, {MPC, MPC}, {ITER, NEWSTATE, ITER}, {ITER, NEWCOST, ITER}, {ITER, NEWSYS, ITER}, {ITER, NOLS, ITER}, {ITER, HORIZON, ITER}, {ITER, ALG, ITER}};
    auto ops = seqs[c.choose((int)seqs.size())];
    Ref r = base(alg, 2, single(alg) ? 1 : c.pick<int>({1, 2}), 0, false);
    lineSearch(r, c.choose(3));
    D::check(c, r, ops, 2, c.thorough ? 2 : 1, false);
}
MC_SUITE(schedules, "single and multiple shooting, one iteration with line search, 2..3 workers, 2 (thorough 3) deviations, also with spurious wake-ups")
{
    int v = c.choose(4);
    Ref r = v == 0 ? base(S::GNMS, 2, 1, 0, false) : v == 1 ? base(S::SS_CL, 2, 1, 0, false) : v == 2 ? base(S::MS_ILQR, 3, 2, 0, false) : base(S::GNMS, 3, 1, 0, false);
    lineSearch(r, v == 3 ? 0 : c.pick<int>({2, 3}));
    bool sp = c.thorough ? c.flip() : false;
    int n = v == 0 || c.thorough ? c.pick<int>({2, 3}) : 2;
    D::check(c, r, {ITER}, n, c.thorough ? 3 : 2, sp);
}
