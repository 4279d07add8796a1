// P21: steady-state Kalman filter against the stationary recursion over all short call histories
// MC_LIBS: -lipopt -llapack -lblas
#include "filter_models.h"

// ---- steady-state filter
template <size_t NX, size_t NY>
static void sskf(mc::Ctx& c, int len)
{
    typedef Eigen::Matrix<double, NX, NX> M;
    FSpec<NX> f{pickF(c, false)};
    HSpec<NY, NX> h{pickH(c, false)};
    const bool unstable = c.flip();  // larger steps, no damping
    M Q = spd<NX>(c.pick<int>({0, 3}));
    Eigen::Matrix<double, NY, NY> R = spd<NY>(2) * c.pick<double>({1.0, 0.1});
    Eigen::Matrix<double, NX, 1> x = vec<NX>(1);
    typedef SteadyStateKalmanFilter<NX, 1, NY> F;
    std::shared_ptr<F> flt;
    auto fm = std::make_shared<FModel<NX>>(f);
    auto hm = std::make_shared<HModel<NY, NX>>(h);
    if (c.flip())
        flt.reset(new F(fm, hm, Q, R, StateVector<NX>(x)));
    else
    {
        SteadyStateKalmanFilterSettings<NX> s;
        s.x0 = x;
        flt.reset(new F(fm, hm, Q, R, s));
    }
    double t = 0.5;
    M A = M::Identity();
    for (int i = 0; i < len; i++)
    {
        int a = i == 0 ? c.choose(2) : c.choose(5);
        double dt = (a & 1 ? 0.25 : 0.5) * (unstable ? 4.0 : 1.0);
        if (a < 2)
        {
            double u = a ? -1.0 : 0.5;
            ControlVector<1> uu;
            uu << u;
            A = f.dfdx(x, u, dt, t);
            x = f.f(x, u, dt, t);
            StateVector<NX> r = flt->predict(uu, dt, t);
            c.log() << "predict u=" << u << " dt=" << dt << " t=" << t << "; ";
            c.eqM(r, x, "prediction returned", 1e-3);
            t += dt;
        }
        else if (a < 4)
        {
            Eigen::Matrix<double, NY, 1> y = vec<NY>(a == 2 ? 3 : -2);
            auto H = h.dhdx(x, t);
            // stationary a-priori covariance by long iteration of the textbook recursion
            M P = Q;
            double diff = 1;
            for (int k = 0; k < 20000 && diff > 1e-13; k++)
            {
                Eigen::Matrix<double, NY, NY> S = H * P * H.transpose() + R;
                Eigen::Matrix<double, NX, NY> K = S.ldlt().solve(H * P).transpose();
                M I = M::Identity() - K * H;
                M Pf = I * P * I.transpose() + K * R * K.transpose();
                M Pn = A * Pf * A.transpose() + Q;
                Pn = (0.5 * (Pn + Pn.transpose())).eval();
                diff = (Pn - P).cwiseAbs().maxCoeff() / (1.0 + P.cwiseAbs().maxCoeff());
                P = Pn;
            }
            Eigen::Matrix<double, NY, NY> S = H * P * H.transpose() + R;
            Eigen::Matrix<double, NX, NY> K = S.ldlt().solve(H * P).transpose();
            // only detectable pairs: the stationary error dynamics must be a contraction with margin
            double rho = (A * (M::Identity() - K * H)).eigenvalues().cwiseAbs().maxCoeff();
            if (!(rho < 0.95) || P.cwiseAbs().maxCoeff() > 1e3)
                c.prune();
            x += K * (y - h.h(x, t));
            StateVector<NX> r = flt->update(OutputVector<NY>(y), dt, t);
            c.log() << "update t=" << t << "; ";
            c.eqM(r, x, "estimate returned by update", 1e-3);
        }
        else
        {
            x = vec<NX>(-2);
            flt->setEstimate(StateVector<NX>(x));
            c.log() << "setEstimate; ";
        }
        c.step(1);
        c.eqM(flt->getEstimate(), x, "estimate", 1e-3);
        x = flt->getEstimate();  // do not accumulate the solver tolerance
        c.state(mc::hd(x(0)));
    }
    // a Riccati iteration that may not converge within its limit must be refused, leaving the estimate untouched
    flt->setMaxDAREIterations(0);
    StateVector<NX> before = flt->getEstimate();
    c.throws([&] { flt->update(OutputVector<NY>(vec<NY>(1)), 0.5, t); }, "update without any Riccati iteration");
    c.eqM(flt->getEstimate(), before, "estimate after refused update");
}
MC_SUITE(sskf_2_1, "steady-state filter, 2 states, 1 output: 4x3 models, stable and unstable steps, 2x2 covariances, histories of length 3 (5 thorough)")
{
    sskf<2, 1>(c, c.thorough ? 5 : 3);
}
MC_SUITE(sskf_2_2, "steady-state filter, 2 states, 2 outputs: histories of length 3 (4 thorough)")
{
    sskf<2, 2>(c, c.thorough ? 4 : 3);
}
MC_SUITE(sskf_1_1, "steady-state filter, 1 state, 1 output: histories of length 3 (5 thorough)")
{
    sskf<1, 1>(c, c.thorough ? 5 : 3);
}
