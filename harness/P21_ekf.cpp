// P21: extended Kalman filter against the textbook recursion over all short call histories
// MC_LIBS: -lipopt -llapack -lblas
#include "filter_models.h"

// ---- extended Kalman filter
template <size_t NX, size_t NY>
static void ekf(mc::Ctx& c, int len)
{
    typedef Eigen::Matrix<double, NX, NX> M;
    FSpec<NX> f{pickF(c, false)};
    HSpec<NY, NX> h{pickH(c, false)};
    M Q = spd<NX>(0), P = spd<NX>(1);
    Eigen::Matrix<double, NY, NY> R = spd<NY>(2);
    Eigen::Matrix<double, NX, 1> x = vec<NX>(1);
    typedef ExtendedKalmanFilter<NX, 1, NY> F;
    std::shared_ptr<F> ekf;
    auto fm = std::make_shared<FModel<NX>>(f);
    auto hm = std::make_shared<HModel<NY, NX>>(h);
    switch (c.choose(3))
    {
        case 0:
            ekf.reset(new F(fm, hm, Q, R, StateVector<NX>(x), StateMatrix<NX>(P)));
            break;
        case 1:  // defaults: zero state, zero covariance
            ekf.reset(new F(fm, hm, Q, R));
            x.setZero();
            P.setZero();
            break;
        default:
        {
            ExtendedKalmanFilterSettings<NX> s;
            s.x0 = x;
            s.P0 = P;
            ekf.reset(new F(fm, hm, Q, R, s));
        }
    }
    c.eqM(ekf->getEstimate(), x, "initial estimate");
    c.eqM(ekf->getCovarianceMatrix(), P, "initial covariance");
    double t = 0.5;
    for (int i = 0; i < len; i++)
    {
        int a = c.choose(9);
        double dt = a & 1 ? 0.25 : 0.5;
        if (a < 2)  // predict
        {
            double u = a ? -1.0 : 0.5;
            M A = f.dfdx(x, u, dt, t), G = f.dfdv(x, u, dt, t);
            P = (A * P * A.transpose() + dt * (G * Q * G.transpose())).eval();
            x = f.f(x, u, dt, t);
            ControlVector<1> uu;
            uu << u;
            c.log() << "predict u=" << u << " dt=" << dt << " t=" << t << "; ";
            StateVector<NX> r = ekf->predict(uu, dt, t);
            c.eqM(r, x, "prediction returned");
            t += dt;
        }
        else if (a < 4)  // update
        {
            Eigen::Matrix<double, NY, 1> y = vec<NY>(a == 2 ? 3 : -2);
            auto H = h.dhdx(x, t);
            auto W = h.dhdw(x, t);
            Eigen::Matrix<double, NY, NY> S = H * P * H.transpose() + W * R * W.transpose();
            Eigen::Matrix<double, NX, NY> K = S.ldlt().solve(H * P).transpose();
            M I = M::Identity() - K * H;
            M Pn = I * P * I.transpose() + K * (W * R * W.transpose()) * K.transpose();  // Joseph form
            x += K * (y - h.h(x, t));
            P = Pn;
            c.log() << "update t=" << t << "; ";
            StateVector<NX> r = ekf->update(OutputVector<NY>(y), dt, t);
            c.eqM(r, x, "estimate returned by update");
        }
        else if (a == 4)
        {
            Q = spd<NX>(3);
            ekf->setQ(Q);
            c.log() << "setQ; ";
        }
        else if (a == 5)
        {
            R = spd<NY>(1);
            ekf->setR(R);
            c.log() << "setR; ";
        }
        else if (a == 6)
        {
            x = vec<NX>(-3);
            ekf->setEstimate(StateVector<NX>(x));
            c.log() << "setEstimate; ";
        }
        else if (a == 7)
        {
            f = FSpec<NX>{{true, true, 1, 2}};
            ekf->setSystemModel(std::make_shared<FModel<NX>>(f));
            c.log() << "setSystemModel; ";
        }
        else
        {
            h = HSpec<NY, NX>{{true, true, 1, 0}};
            ekf->setMeasurementModel(std::make_shared<HModel<NY, NX>>(h));
            c.log() << "setMeasurementModel; ";
        }
        c.step(1);
        c.eqM(ekf->getEstimate(), x, "estimate", 1e-8);
        c.eqM(ekf->getCovarianceMatrix(), P, "covariance", 1e-8);
        c.state(mc::mix(mc::hd(x(0)), mc::hd(P(0, 0))));
    }
}
MC_SUITE(ekf_2_1, "EKF, 2 states, 1 output: 4x3 models, 3 constructors, all 9-action histories of length 3 (5 thorough)")
{
    ekf<2, 1>(c, c.thorough ? 5 : 3);
}
MC_SUITE(ekf_2_2, "EKF, 2 states, 2 outputs: 4x3 models, 3 constructors, all 9-action histories of length 4 (4 thorough)")
{
    ekf<2, 2>(c, 4);
}
MC_SUITE(ekf_3_2, "EKF, 3 states, 2 outputs: 4x3 models, 3 constructors, all 9-action histories of length 3 (4 thorough)")
{
    ekf<3, 2>(c, c.thorough ? 4 : 3);
}
MC_SUITE(ekf_1_3, "EKF, 1 state, 3 outputs: 4x3 models, 3 constructors, all 9-action histories of length 3 (4 thorough)")
{
    ekf<1, 3>(c, c.thorough ? 4 : 3);
}
