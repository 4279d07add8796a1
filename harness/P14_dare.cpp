// P14: discrete-time designs
// MC_LIBS: -lipopt -llapack -lblas
#include "lqr_tables.h"

// exact stabilising solution of the discrete equation by long value iteration in extended precision
static bool dareRef(const Sys& s, MX& P, MX& K)
{
    typedef Eigen::Matrix<long double, -1, -1> ML;
    ML A = s.A.cast<long double>(), B = s.B.cast<long double>(), Q = s.Q.cast<long double>(), R = s.R.cast<long double>(), X = Q;
    for (int i = 0; i < 20000; i++)
    {
        ML Hm = R + B.transpose() * X * B;
        ML Kk = Hm.inverse() * B.transpose() * X * A;
        ML Xn = Q + A.transpose() * X * A - Kk.transpose() * Hm * Kk;
        Xn = (0.5L * (Xn + Xn.transpose())).eval();
        long double d = (Xn - X).cwiseAbs().maxCoeff();
        X = Xn;
        if (!(d < 1e12L))
            return false;
        if (d < 1e-15L)
        {
            P = X.cast<double>();
            K = -Kk.cast<double>();
            return true;
        }
    }
    return false;
}
template <int N, int M>
struct D
{
    typedef DARE<N, M> De;
    static bool usable(const Sys& s) { return stabilisable(s.A, s.B, false) && detectable(s.A, s.Q, false); }
    static void one(mc::Ctx& c, De& dare, const Sys& s, int how)
    {
        typename De::control_feedback_t K;
        K.setConstant(77);
        MX P, Pr, Kr;
        mc::Quiet q;
        if (!usable(s))
            return;
        c.check(dareRef(s, Pr, Kr), "reference converged");
        if (how == 0)
            P = dare.computeSteadyStateRiccatiMatrix(s.Q, s.R, s.A, s.B, K);
        else if (how == 1)
            P = dare.computeSteadyStateRiccatiMatrix(s.Q, s.R, s.A, s.B, MX::Identity(N, N) * 5, K, true);
        else
            P = dare.computeSteadyStateRiccatiMatrix(s.Q, s.R, s.A, s.B, Pr, K, false, 1e-9, 5000);
        // the solver regularises by 1e-5 and stops at 1e-6
        c.eqM(P, Pr, "discrete Riccati matrix", 1e-3);
        c.eqM(K, Kr, "discrete gain", 1e-3);
        c.check((P - P.transpose()).norm() < 1e-9 * (1 + P.norm()), "discrete Riccati matrix is symmetric");
        c.check((s.A + s.B * K).eigenvalues().cwiseAbs().maxCoeff() < 1, "discrete closed loop is stable");
    }
    static void run(mc::Ctx& c)
    {
        Sys s = pickSys(c, N, M);
        int how = c.choose(3);
        c.log() << show(s) << " how=" << how;
        De d;
        c.step();
        one(c, d, s, how);
        // unstabilisable mode with cost: no stationary solution exists, the solver has to say so
        if (N > 1 && !stabilisable(s.A, s.B, false) && Eigen::SelfAdjointEigenSolver<MX>(s.Q).eigenvalues().minCoeff() > 0.1 &&
            s.A.eigenvalues().cwiseAbs().maxCoeff() > 1.01)
        {
            typename De::control_feedback_t K;
            c.throws([&]() { d.computeSteadyStateRiccatiMatrix(s.Q, s.R, s.A, s.B, K); }, "unstabilisable system");
        }
        c.state(c.hist);
    }
    static void pairs(mc::Ctx& c)
    {
        De d;
        for (int i = 0; i < 2; i++)
        {
            Sys s{c.pick(tabA(N)), c.pick(tabB(N, M)), tabQ(N)[i], tabR(M)[1]};
            int how = c.choose(2);
            c.log() << show(s) << " how=" << how << "; ";
            c.step();
            one(c, d, s, how);
            c.state(c.hist);
        }
    }
};
MC_SUITE(dare_1x1, "all tabulated 1x1 discrete systems and weights, 3 ways to call") { D<1, 1>::run(c); }
MC_SUITE(dare_1x2, "all tabulated 1x2 discrete systems and weights, 3 ways to call") { D<1, 2>::run(c); }
MC_SUITE(dare_2x1, "all tabulated 2x1 discrete systems and weights, 3 ways to call") { D<2, 1>::run(c); }
MC_SUITE(dare_2x2, "all tabulated 2x2 discrete systems and weights, 3 ways to call") { D<2, 2>::run(c); }
MC_SUITE(dare_2x3, "all tabulated 2x3 discrete systems and weights, 3 ways to call") { D<2, 3>::run(c); }
MC_SUITE(dare_pairs_2x2, "all pairs of consecutive discrete designs with one object, 2x2") { D<2, 2>::pairs(c); }

