// P14: continuous-time designs
// MC_LIBS: -lipopt -llapack -lblas
#include "lqr_tables.h"

static void checkCare(mc::Ctx& c, const Sys& s, const MX& P, const MX& K, double tol)
{
    MX Ri = s.R.inverse();
    MX res = s.A.transpose() * P + P * s.A - P * s.B * Ri * s.B.transpose() * P + s.Q;
    double sc = 1 + P.norm() * (1 + P.norm());
    c.check(P.allFinite(), "Riccati matrix is finite");
    c.check(res.norm() <= tol * sc, "continuous algebraic Riccati equation holds");
    c.check((P - P.transpose()).norm() <= tol * (1 + P.norm()), "Riccati matrix is symmetric");
    c.check(Eigen::SelfAdjointEigenSolver<MX>(0.5 * (P + P.transpose())).eigenvalues().minCoeff() >= -tol * (1 + P.norm()),
        "Riccati matrix is positive semidefinite");
    c.eqM(K, MX(Ri * s.B.transpose() * P), "gain", tol);
    MX cl = s.A - s.B * K;
    c.check(cl.eigenvalues().real().maxCoeff() < 1e-6, "closed loop is stable");
}

template <int N, int M>
struct C
{
    typedef LQR<N, M> L;
    typedef CARE<N, M> Ca;
    static void one(mc::Ctx& c, L& lqr, Ca& care, const Sys& s, bool diag, bool iter)
    {
        typename L::control_feedback_t K;
        K.setConstant(77);
        typename L::state_matrix_t P;
        typename L::control_matrix_t Ri;
        bool ok = lqr.compute(s.Q, s.R, s.A, s.B, K, diag, iter);
        c.check(ok, "design reports success");
        bool ok2 = care.solve(s.Q, s.R, s.A, s.B, P, diag, Ri, iter);
        c.check(ok2, "Riccati solver reports success");
        c.eqM(Ri, MX(s.R.inverse()), "inverse of R");
        checkCare(c, s, P, K, 2e-5);
        c.eqM(care.computeSteadyStateRiccatiMatrix(s.Q, s.R, s.A, s.B, diag, iter), P, "computeSteadyStateRiccatiMatrix", 1e-6);
    }
    static bool usable(const Sys& s) { return stabilisable(s.A, s.B, true) && detectable(s.A, s.Q, true); }
    static void run(mc::Ctx& c)
    {
        Sys s = pickSys(c, N, M);
        if (!usable(s))
            c.prune();
        bool diag = s.R.isDiagonal() ? c.flip() : false;
        bool iter = c.flip();
        c.log() << show(s) << " diagonal=" << diag << " iterative=" << iter;
        L l;
        Ca k;
        c.step();
        one(c, l, k, s, diag, iter);
        c.state(c.hist);
    }
    // two designs with one object
    static void pairs(mc::Ctx& c)
    {
        L l;
        Ca k;
        for (int d = 0; d < 2; d++)
        {
            Sys s{tabA(N)[c.choose(tabA(N).size())], c.pick(tabB(N, M)), tabQ(N)[d], c.pick(tabR(M))};
            if (!usable(s))
                c.prune();
            bool diag = s.R.isDiagonal();
            bool iter = c.flip();
            c.log() << show(s) << " iterative=" << iter << "; ";
            c.step();
            one(c, l, k, s, diag, iter);
            c.state(c.hist);
        }
    }
};
MC_SUITE(care_1x1, "all tabulated 1x1 systems and weights, direct and iterative, diagonal and general R") { C<1, 1>::run(c); }
MC_SUITE(care_1x2, "all tabulated 1x2 systems and weights, direct and iterative, diagonal and general R") { C<1, 2>::run(c); }
MC_SUITE(care_2x1, "all tabulated 2x1 systems and weights, direct and iterative, diagonal and general R") { C<2, 1>::run(c); }
MC_SUITE(care_2x2, "all tabulated 2x2 systems and weights, direct and iterative, diagonal and general R") { C<2, 2>::run(c); }
MC_SUITE(care_3x2, "all tabulated 3x2 systems and weights, direct and iterative, diagonal and general R") { C<3, 2>::run(c); }
MC_SUITE(care_pairs_2x2, "all pairs of consecutive continuous-time designs with one object, 2x2") { C<2, 2>::pairs(c); }

