// P18: warm starts and truncation of state-feedback policies
// MC_LIBS: -lipopt -llapack -lblas
#include "mpc_ref.h"
using namespace ct::optcon;
static void run(mc::Ctx& c, int maxK, int depth, const std::vector<double>& shifts, const std::vector<double>& horizons)
{
    int K = 1 + c.choose(maxK);
    RefPolicy r = RefPolicy::make(K, 1);
    Policy p = r.real();
    r.compare(c, p, "initial policy");
    StateFeedbackPolicyHandler<NX, NU, double> h(DT);
    c.log() << "K=" << K << " ";
    for (int d = 0; d < depth; d++)
    {
        double s = c.pick(shifts);
        if (c.flip())
        {
            double T = c.pick(horizons);
            c.log() << "warmStart(shift " << s << ", T " << T << ") ";
            h.designWarmStartingPolicy(s, T, p);
            r.warm(s, T);
        }
        else
        {
            double eff = -1;
            c.log() << "truncate(" << s << ") ";
            h.truncateSolutionFront(s, p, eff);
            double want = r.truncate(s);
            c.eq(eff, want, "truncated time");
            c.check(want <= s + 1e-9, "not more than requested is truncated");
        }
        c.step();
        r.compare(c, p, "policy");
        c.state(mc::mix(r.u.size(), mc::hd(r.u[0]) + mc::hd(r.u.back())));
    }
}
MC_SUITE(shifts, "policies of 1..5 steps, single operations with 20 shifts on and off the grid x 14 horizons")
{
    std::vector<double> s, T;
    for (int i = 0; i < 20; i++)
        s.push_back(i * 0.0625 + (i > 15 ? (i - 15) * 0.5 : 0));
    for (int i = 0; i < 14; i++)
        T.push_back(i * 0.15625);
    run(c, 5, 1, s, T);
}
MC_SUITE(sequences, "policies of 1..4 steps, all sequences of 3 operations with 5 shifts x 4 horizons")
{
    run(c, 4, 3, {0, 0.125, 0.25, 0.6875, 5.0}, {0.25, 0.75, 1.25, 0});
}
MC_SUITE_THOROUGH(sequences_deep, "policies of 1..4 steps, all sequences of 4 operations with 5 shifts x 4 horizons")
{
    run(c, 4, 4, {0, 0.125, 0.25, 0.6875, 5.0}, {0.25, 0.75, 1.25, 0});
}
MC_SUITE(cold_start, "base policy handler: always restarts from the policy set last; truncation leaves it alone")
{
    PolicyHandler<Policy, NX, NU, double> h;
    RefPolicy a = RefPolicy::make(1 + c.choose(3), 1), b = RefPolicy::make(1 + c.choose(3), 2);
    h.setPolicy(a.real());
    RefPolicy cur = a;
    for (int i = 0; i < 3; i++)
    {
        c.step();
        if (c.flip())
        {
            h.setPolicy(b.real());
            cur = b;
        }
        Policy p = RefPolicy::make(2, 7).real();
        h.designWarmStartingPolicy(c.pick<double>({0, 0.3}), c.pick<double>({0.25, 1}), p);
        cur.compare(c, p, "cold start policy");
    }
}
