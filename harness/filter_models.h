// models and tables for the estimator harnesses (P21)
#pragma once
#include <ct/optcon/optcon.h>
#include "mc.h"
using namespace ct::core;
using namespace ct::optcon;

// ---- models: every ingredient depends on the state, the control, the time and the step where its kind says so
struct Spec
{
    bool nonlinear, timevarying;
    int noise;   // 0 identity-like, 1 full symmetric positive definite, 2 depends on state, control and time
    int flavour; // selects the numbers
};
template <size_t NX>
struct FSpec
{
    typedef Eigen::Matrix<double, NX, 1> V;
    typedef Eigen::Matrix<double, NX, NX> M;
    Spec s;
    M A(double dt, double t) const
    {
        M a;
        for (size_t i = 0; i < NX; i++)
            for (size_t j = 0; j < NX; j++)
                a(i, j) = (i == j ? 1.0 : 0.0) + dt * (0.3 * double((i + 2 * j + s.flavour) % 3) - 0.4 - (i == j ? 0.2 : 0.0));
        if (s.timevarying)
            a(0, NX - 1) += 0.5 * dt * (1.0 + t);
        return a;
    }
    V b(double dt, double t) const
    {
        V v;
        for (size_t i = 0; i < NX; i++)
            v(i) = dt * (1.0 + 0.5 * i + (s.timevarying ? 0.25 * t : 0.0));
        return v;
    }
    V f(const V& x, double u, double dt, double t) const
    {
        V r = A(dt, t) * x + b(dt, t) * u;
        if (s.nonlinear)
        {
            r(0) += dt * 0.2 * x(NX - 1) * x(NX - 1) + 0.1 * dt * u * x(0);
            r(NX - 1) += 0.15 * dt * std::sin(x(0));
        }
        return r;
    }
    M dfdx(const V& x, double u, double dt, double t) const
    {
        M r = A(dt, t);
        if (s.nonlinear)
        {
            r(0, NX - 1) += dt * 0.4 * x(NX - 1);
            r(0, 0) += 0.1 * dt * u;
            r(NX - 1, 0) += 0.15 * dt * std::cos(x(0));
        }
        return r;
    }
    M dfdv(const V& x, double u, double dt, double t) const
    {
        M r = M::Identity() * 0.5;
        if (s.noise >= 1)
            for (size_t i = 0; i < NX; i++)
                for (size_t j = 0; j < NX; j++)
                    r(i, j) = (i == j ? 1.0 + 0.25 * i : 0.125);
        if (s.noise == 2)
            r *= 1.0 + 0.1 * x(0) * x(0) + 0.2 * u * u + 0.3 * dt + 0.1 * t;
        return r;
    }
};
template <size_t NY, size_t NX>
struct HSpec
{
    typedef Eigen::Matrix<double, NX, 1> V;
    typedef Eigen::Matrix<double, NY, 1> Y;
    typedef Eigen::Matrix<double, NY, NX> C;
    typedef Eigen::Matrix<double, NY, NY> W;
    Spec s;
    C H(double t) const
    {
        C c;
        for (size_t i = 0; i < NY; i++)
            for (size_t j = 0; j < NX; j++)
                c(i, j) = (i == j ? 1.0 : 0.0) + 0.25 * double((i + j + s.flavour) % 2);
        if (s.timevarying)
            c(0, NX - 1) += 0.5 * t;
        return c;
    }
    Y h(const V& x, double t) const
    {
        Y y = H(t) * x;
        if (s.timevarying)
            y(0) += 0.3 * t;
        if (s.nonlinear)
            y(NY - 1) += 0.2 * x(0) * x(0);
        return y;
    }
    C dhdx(const V& x, double t) const
    {
        C c = H(t);
        if (s.nonlinear)
            c(NY - 1, 0) += 0.4 * x(0);
        return c;
    }
    W dhdw(const V& x, double t) const
    {
        W r = W::Identity() * 0.75;
        if (s.noise >= 1)
            for (size_t i = 0; i < NY; i++)
                for (size_t j = 0; j < NY; j++)
                    r(i, j) = (i == j ? 1.0 + 0.5 * i : 0.25);
        if (s.noise == 2)
            r *= 1.0 + 0.1 * x(0) * x(0) + 0.2 * t;
        return r;
    }
};
template <size_t NX>
struct FModel : SystemModelBase<NX, 1>
{
    FSpec<NX> s;
    FModel(FSpec<NX> s_) : s(s_) {}
    StateVector<NX> computeDynamics(const StateVector<NX>& x, const ControlVector<1>& u, const double dt, double t) override
    {
        return StateVector<NX>(s.f(x, u(0), dt, t));
    }
    StateMatrix<NX> computeDerivativeState(const StateVector<NX>& x, const ControlVector<1>& u, const double dt, double t) override
    {
        return StateMatrix<NX>(s.dfdx(x, u(0), dt, t));
    }
    StateMatrix<NX> computeDerivativeNoise(const StateVector<NX>& x, const ControlVector<1>& u, const double dt, double t) override
    {
        return StateMatrix<NX>(s.dfdv(x, u(0), dt, t));
    }
};
template <size_t NY, size_t NX>
struct HModel : LinearMeasurementModel<NY, NX>
{
    HSpec<NY, NX> s;
    HModel(HSpec<NY, NX> s_) : s(s_) {}
    OutputVector<NY> computeMeasurement(const StateVector<NX>& x, const Time& t = 0) override { return OutputVector<NY>(s.h(x, t)); }
    OutputStateMatrix<NY, NX> computeDerivativeState(const StateVector<NX>& x, const Time& t) override
    {
        return OutputStateMatrix<NY, NX>(s.dhdx(x, t));
    }
    OutputMatrix<NY> computeDerivativeNoise(const StateVector<NX>& x, const Time& t) override { return OutputMatrix<NY>(s.dhdw(x, t)); }
};

template <size_t NX>
static Eigen::Matrix<double, NX, NX> spd(int k)
{
    Eigen::Matrix<double, NX, NX> m;
    for (size_t i = 0; i < NX; i++)
        for (size_t j = 0; j < NX; j++)
            m(i, j) = (i == j ? 1.0 + 0.5 * k + 0.25 * i : 0.2 * (k % 2 ? 1 : -1));
    return m;
}
template <size_t NX>
static Eigen::Matrix<double, NX, 1> vec(int k)
{
    Eigen::Matrix<double, NX, 1> v;
    for (size_t i = 0; i < NX; i++)
        v(i) = 0.5 * k - 0.75 * i + 0.25;
    return v;
}

static Spec pickF(mc::Ctx& c, bool linear)
{
    static const Spec all[] = {{false, false, 0, 0}, {false, true, 1, 1}, {true, true, 2, 0}, {true, false, 1, 2}};
    return all[c.choose(linear ? 2 : 4)];
}
static Spec pickH(mc::Ctx& c, bool linear)
{
    static const Spec all[] = {{false, false, 1, 0}, {false, true, 0, 1}, {true, true, 2, 1}};
    return all[c.choose(linear ? 2 : 3)];
}
