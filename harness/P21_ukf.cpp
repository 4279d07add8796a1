// P21: unscented Kalman filter against Kalman and unscented recursions over all short call histories
// MC_LIBS: -lipopt -llapack -lblas
#include "filter_models.h"

// ---- unscented Kalman filter
// independent unscented transform
template <size_t NX, size_t NZ, class G>
static void unscented(const Eigen::Matrix<double, NX, 1>& x, const Eigen::Matrix<double, NX, NX>& P, double alpha, double beta,
    double kappa, const G& g, Eigen::Matrix<double, NZ, 1>& m, Eigen::Matrix<double, NZ, NZ>& S, Eigen::Matrix<double, NX, NZ>& X)
{
    const double n = NX, scale = alpha * alpha * (n + kappa);
    Eigen::Matrix<double, NX, NX> L = Eigen::Matrix<double, NX, NX>::Zero();
    for (size_t j = 0; j < NX; j++)
        for (size_t i = j; i < NX; i++)
        {
            double v = P(i, j);
            for (size_t k = 0; k < j; k++)
                v -= L(i, k) * L(j, k);
            L(i, j) = i == j ? std::sqrt(v) : v / L(j, j);
        }
    std::vector<Eigen::Matrix<double, NX, 1>> p{x};
    for (size_t j = 0; j < NX; j++)
    {
        p.push_back(x + std::sqrt(scale) * L.col(j));
        p.push_back(x - std::sqrt(scale) * L.col(j));
    }
    const double w = 0.5 / scale, w0 = 1.0 - n / scale, c0 = w0 + 1.0 - alpha * alpha + beta;
    std::vector<Eigen::Matrix<double, NZ, 1>> z;
    m.setZero();
    for (size_t i = 0; i < p.size(); i++)
    {
        z.push_back(g(p[i]));
        m += (i ? w : w0) * z[i];
    }
    S.setZero();
    X.setZero();
    for (size_t i = 0; i < p.size(); i++)
    {
        S += (i ? w : c0) * (z[i] - m) * (z[i] - m).transpose();
        X += (i ? w : c0) * (p[i] - x) * (z[i] - m).transpose();
    }
}
template <size_t NX, size_t NY>
static void ukf(mc::Ctx& c, int len, bool linear)
{
    typedef Eigen::Matrix<double, NX, NX> M;
    FSpec<NX> f{pickF(c, linear)};
    HSpec<NY, NX> h{pickH(c, linear)};
    M P = spd<NX>(1);
    Eigen::Matrix<double, NX, 1> x = vec<NX>(1);
    typedef UnscentedKalmanFilter<NX, 1, NY> F;
    std::shared_ptr<F> flt;
    auto fm = std::make_shared<FModel<NX>>(f);
    auto hm = std::make_shared<HModel<NY, NX>>(h);
    double alpha = 1, beta = 2, kappa = 0;
    if (c.flip())
    {
        alpha = c.pick<double>({0.5, 1.0});
        beta = 1.5;
        kappa = c.pick<double>({0.0, 1.0});
        if (c.flip())
            flt.reset(new F(fm, hm, StateVector<NX>(x), alpha, beta, kappa, StateMatrix<NX>(P)));
        else
        {
            UnscentedKalmanFilterSettings<NX> s;
            s.x0 = x;
            s.P0 = P;
            s.alpha = alpha;
            s.beta = beta;
            s.kappa = kappa;
            flt.reset(new F(fm, hm, s));
        }
    }
    else
    {
        flt.reset(new F(fm, hm));
        x.setZero();
        P.setIdentity();
    }
    c.eqM(flt->getEstimate(), x, "initial estimate");
    double t = 0.5;
    for (int i = 0; i < len; i++)
    {
        int a = c.choose(7);
        double dt = a & 1 ? 0.25 : 0.5;
        if (a < 2)
        {
            double u = a ? -1.0 : 0.5;
            ControlVector<1> uu;
            uu << u;
            if (linear)
            {
                M A = f.dfdx(x, u, dt, t);
                x = f.f(x, u, dt, t);
                P = (A * P * A.transpose() + f.dfdv(x, u, dt, t)).eval();
            }
            else
            {
                Eigen::Matrix<double, NX, 1> m;
                M S, X;
                unscented<NX, NX>(x, P, alpha, beta, kappa, [&](const Eigen::Matrix<double, NX, 1>& p) { return f.f(p, u, dt, t); }, m, S, X);
                x = m;
                P = S + f.dfdv(x, u, dt, t);
            }
            c.log() << "predict u=" << u << " dt=" << dt << " t=" << t << "; ";
            StateVector<NX> r = flt->predict(uu, dt, t);
            c.eqM(r, x, "prediction returned", 1e-8);
            t += dt;
        }
        else if (a < 4)
        {
            Eigen::Matrix<double, NY, 1> y = vec<NY>(a == 2 ? 3 : -2), m;
            Eigen::Matrix<double, NY, NY> S;
            Eigen::Matrix<double, NX, NY> X;
            if (linear)
            {
                auto H = h.dhdx(x, t);
                S = H * P * H.transpose() + h.dhdw(x, t);
                X = P * H.transpose();
                m = h.h(x, t);
            }
            else
            {
                unscented<NX, NY>(x, P, alpha, beta, kappa, [&](const Eigen::Matrix<double, NX, 1>& p) { return h.h(p, t); }, m, S, X);
                S += h.dhdw(x, t);
            }
            Eigen::Matrix<double, NX, NY> K = S.ldlt().solve(X.transpose()).transpose();
            x += K * (y - m);
            P -= (K * X.transpose()).eval();
            P = (0.5 * (P + P.transpose())).eval();
            c.log() << "update t=" << t << "; ";
            StateVector<NX> r = flt->update(OutputVector<NY>(y), dt, t);
            c.eqM(r, x, "estimate returned by update", 1e-8);
        }
        else if (a == 4)
        {
            x = vec<NX>(-2);
            flt->setEstimate(StateVector<NX>(x));
            c.log() << "setEstimate; ";
        }
        else if (a == 5)
        {
            f = FSpec<NX>{{!linear, true, 1, 2}};
            flt->setSystemModel(std::make_shared<FModel<NX>>(f));
            c.log() << "setSystemModel; ";
        }
        else
        {
            h = HSpec<NY, NX>{{!linear, true, 1, 0}};
            flt->setMeasurementModel(std::make_shared<HModel<NY, NX>>(h));
            c.log() << "setMeasurementModel; ";
        }
        c.step(1);
        c.eqM(flt->getEstimate(), x, "estimate", 1e-8);
        c.state(mc::mix(mc::hd(x(0)), mc::hd(P(0, 0))));
    }
}
MC_SUITE(ukf_linear_2_1, "UKF equals the Kalman filter on linear models: 2 states, 1 output, 2x2 models, 9 parameterisations, all 7-action histories of length 4 (5 thorough)")
{
    ukf<2, 1>(c, c.thorough ? 5 : 4, true);
}
MC_SUITE(ukf_linear_3_2, "UKF equals the Kalman filter on linear models: 3 states, 2 outputs, histories of length 3 (4 thorough)")
{
    ukf<3, 2>(c, c.thorough ? 4 : 3, true);
}
MC_SUITE(ukf_linear_2_3, "UKF equals the Kalman filter on linear models: 2 states, 3 outputs, histories of length 3 (4 thorough)")
{
    ukf<2, 3>(c, c.thorough ? 4 : 3, true);
}
MC_SUITE(ukf_nonlinear, "UKF against an independent unscented transform: 2 states, 2 outputs, 4x3 models, histories of length 3 (4 thorough)")
{
    ukf<2, 2>(c, c.thorough ? 4 : 3, false);
}
