// P14: Riccati steps and finite-horizon designs
// MC_LIBS: -lipopt -llapack -lblas
#include "lqr_tables.h"

// one backward step
template <int N, int M>
static void step(mc::Ctx& c)
{
    Sys s = pickSys(c, N, M);
    MX P0 = c.pick(tabQ(N));
    bool naive = c.flip();
    c.log() << show(s) << " naive=" << naive;
    c.step();
    DynamicRiccatiEquation<N, M> e;
    typename DynamicRiccatiEquation<N, M>::state_matrix_t P = P0;
    typename DynamicRiccatiEquation<N, M>::control_feedback_t K;
    if (naive)
        e.iterateNaive(s.Q, s.R, s.A, s.B, P, K);
    else
        e.iterateRobust(s.Q, s.R, s.A, s.B, P, K);
    MX Hm = s.R + s.B.transpose() * P0 * s.B;
    MX Kr = -Hm.inverse() * s.B.transpose() * P0 * s.A;
    MX Pr = s.Q + s.A.transpose() * P0 * s.A - Kr.transpose() * Hm * Kr;
    c.eqM(K, Kr, "gain of one Riccati step", naive ? 1e-9 : 2e-4);
    c.eqM(P, Pr, "one Riccati step", naive ? 1e-9 : 2e-4);
    c.state(c.hist);
}
MC_SUITE(riccati_step_2x2, "all tabulated 2x2 systems, weights and cost-to-go matrices, both iterations") { step<2, 2>(c); }
MC_SUITE(riccati_step_2x3, "all tabulated 2x3 systems, weights and cost-to-go matrices, both iterations") { step<2, 3>(c); }
MC_SUITE(riccati_step_1x2, "all tabulated 1x2 systems, weights and cost-to-go matrices, both iterations") { step<1, 2>(c); }

// time-varying linear system used for the design from a derivative object
class TV : public ct::core::LinearSystem<2, 1>
{
public:
    state_matrix_t A_;
    ct::core::StateControlMatrix<2, 1> B_;
    bool tv;
    TV(bool t) : tv(t) {}
    TV* clone() const override { return new TV(*this); }
    static MX fA(bool tv, const MX& x, const MX& u, double t) { return mat(2, 2, {0.1 * x(0), 1, -1 - (tv ? 2 * t : 0), 0.25 * u(0)}); }
    static MX fB(bool tv, const MX& x, const MX& u, double t) { return mat(2, 1, {0.5 * x(1), 1 + (tv ? t : 0)}); }
    const state_matrix_t& getDerivativeState(const ct::core::StateVector<2>& x, const ct::core::ControlVector<1>& u, const double t) override
    {
        A_ = fA(tv, x, u, t);
        return A_;
    }
    const ct::core::StateControlMatrix<2, 1>& getDerivativeControl(const ct::core::StateVector<2>& x, const ct::core::ControlVector<1>& u, const double t) override
    {
        B_ = fB(tv, x, u, t);
        return B_;
    }
};

static void finiteHorizon(mc::Ctx& c, int designs)
{
    // cost: quadratic, plus (optionally) a term that is active from t=0.15 on; Hessians depend on stage time
    int ck = c.choose(3);
    auto cost = std::make_shared<CostFunctionAnalytical<2, 1>>();
    MX Q = tabQ(2)[ck == 1 ? 1 : 0], R = mat(1, 1, {2.0}), Qf = tabQ(2)[ck == 2 ? 2 : 1], Q2 = mat(2, 2, {3, 0, 0, 1}), R2 = mat(1, 1, {0.5});
    ct::core::StateVector<2> xr;
    xr << 0.5, -1;
    ct::core::ControlVector<1> ur;
    ur << 2;
    auto tq = std::make_shared<TermQuadratic<2, 1>>(Q, R, xr, ur);
    auto tf = std::make_shared<TermQuadratic<2, 1>>(Qf, R, xr, ur);
    auto ta = std::make_shared<TermQuadratic<2, 1>>(Q2, R2, xr, ur);
    cost->addIntermediateTerm(tq);
    cost->addFinalTerm(tf);
    if (ck == 2)
    {
        ta->setTimeActivation(std::make_shared<ct::core::tpl::SingleActivation<double>>(0.15, 10.0));
        cost->addIntermediateTerm(ta);
    }
    FHDTLQR<2, 1> fh(cost);
    ct::core::FeedbackArray<2, 1> Kout;
    double dt = 0.1;
    for (int d = 0; d < designs; d++)
    {
        int N = 1 + c.choose(3);
        bool checks = c.flip();
        int mode = c.choose(4);  // explicit matrices, derivative object (constant / time-varying), bad sizes
        c.log() << "cost " << ck << " N=" << N << " checks=" << checks << " mode=" << mode << "; ";
        ct::core::StateVectorArray<2> x;
        ct::core::ControlVectorArray<1> u;
        ct::core::StateMatrixArray<2> A;
        ct::core::StateControlMatrixArray<2, 1> B;
        std::vector<MX> Ar, Br;
        for (int k = 0; k <= N; k++)
        {
            ct::core::StateVector<2> xx;
            xx << 0.5 * k, 1 - k;
            x.push_back(xx);
        }
        for (int k = 0; k < N; k++)
        {
            ct::core::ControlVector<1> uu;
            uu << k - 0.5 + d;
            u.push_back(uu);
            MX a, b;
            if (mode == 1 || mode == 2)
            {
                a = MX::Identity(2, 2) + dt * TV::fA(mode == 2, x[k], u[k], k * dt);
                b = dt * TV::fB(mode == 2, x[k], u[k], k * dt);
            }
            else
            {
                a = tabA(2)[(k + c.choose(designs > 1 ? 2 : 3)) % 6];
                b = tabB(2, 1)[k % 3];
            }
            Ar.push_back(a);
            Br.push_back(b);
            A.push_back(a);
            B.push_back(b);
        }
        c.step();
        mc::Quiet q;
        if (mode == 3)
        {
            int bad = c.choose(3);
            if (bad == 0)
                A.push_back(A[0]);
            else if (bad == 1)
                B.pop_back();
            else
                u.push_back(u[0]);
            c.throws([&]() { fh.designController(x, u, A, B, dt, Kout, checks); }, "trajectories of inconsistent length");
            continue;
        }
        if (mode == 0)
            fh.designController(x, u, A, B, dt, Kout, checks);
        else
            fh.designController(x, u, std::make_shared<TV>(mode == 2), dt, Kout, checks);
        c.eqI(Kout.size(), N, "number of gains");
        MX P = Qf + Qf.transpose();
        for (int k = N - 1; k >= 0; k--)
        {
            bool act = ck == 2 && k * dt >= 0.15;
            MX Qk = dt * (Q + Q.transpose() + (act ? MX(Q2 + Q2.transpose()) : MX(MX::Zero(2, 2))));
            MX Rk = dt * (R + R.transpose() + (act ? MX(R2 + R2.transpose()) : MX(MX::Zero(1, 1))));
            MX Hm = Rk + Br[k].transpose() * P * Br[k];
            MX Kr = -Hm.inverse() * Br[k].transpose() * P * Ar[k];
            P = (Qk + Ar[k].transpose() * P * Ar[k] - Kr.transpose() * Hm * Kr).eval();
            c.eqM(Kout[k], Kr, "finite-horizon gain " + std::to_string(k), 1e-3);
        }
        c.state(c.hist);
    }
}
MC_SUITE(finite_horizon, "3 costs x horizons 1..3 x numerical checks on/off x matrices from the tables, derivative objects (constant, time-varying), inconsistent sizes")
{
    finiteHorizon(c, 1);
}
MC_SUITE(finite_horizon_pairs, "all pairs of consecutive finite-horizon designs with one object") { finiteHorizon(c, 2); }
// with numerical checks on, weights that are indefinite at any stage are refused; sound ones are not
MC_SUITE(finite_horizon_checks, "terminal/stage weights sound or indefinite, the flaw present always or only in a late or early activation window x horizons 1..4, numerical checks on")
{
    mc::Quiet q;
    int N = 1 + c.choose(4), flaw = c.choose(5), when = c.choose(3);
    double dt = 0.1;
    ct::core::StateVector<2> x0;
    x0.setZero();
    ct::core::ControlVector<2> u0;
    u0.setZero();
    auto cost = std::make_shared<CostFunctionAnalytical<2, 2>>();
    MX I = MX::Identity(2, 2), Z = MX::Zero(2, 2);
    cost->addIntermediateTerm(std::make_shared<TermQuadratic<2, 2>>(I, I, x0, u0));
    cost->addFinalTerm(std::make_shared<TermQuadratic<2, 2>>(flaw == 4 ? mat(2, 2, {1, 0, 0, -2}) : mat(2, 2, {1, -0.5, -0.5, 1}), I, x0, u0));
    // the extra term turns the sum Q + dQ, R + dR into flawed weights
    MX dQ = flaw == 1 ? mat(2, 2, {0, 0, 0, -3}) : Z, dR = flaw == 2 ? mat(2, 2, {-4, 0, 0, 0}) : flaw == 3 ? mat(2, 2, {0, 0, 0, -1}) : Z;
    auto t = std::make_shared<TermQuadratic<2, 2>>(dQ, dR, x0, u0);
    if (when)
        t->setTimeActivation(std::make_shared<ct::core::tpl::SingleActivation<double>>(when == 1 ? 0.15 : -1.0, when == 1 ? 10.0 : 0.05));
    cost->addIntermediateTerm(t);
    bool seen = flaw == 4 || (flaw > 0 && (when != 1 || N > 2));  // stage 2 is the first one later than 0.15 s
    FHDTLQR<2, 2> fh(cost);
    ct::core::StateVectorArray<2> x(N + 1, x0);
    ct::core::ControlVectorArray<2> u(N, u0);
    ct::core::StateMatrixArray<2> A(N, ct::core::StateMatrix<2>(I));
    ct::core::StateControlMatrixArray<2, 2> B(N, ct::core::StateControlMatrix<2, 2>(I));
    ct::core::FeedbackArray<2, 2> K;
    c.log() << "N=" << N << " flaw " << flaw << " window " << when;
    c.step();
    if (seen)
        c.throws([&]() { fh.designController(x, u, A, B, dt, K, true); }, "indefinite weights");
    else
    {
        fh.designController(x, u, A, B, dt, K, true);
        c.eqI(K.size(), N, "number of gains");
    }
    c.state(seen);
}
