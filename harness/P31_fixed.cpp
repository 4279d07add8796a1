// P31: generated and hand-derived linearisations of fixed-base robots and of the quadrotor against their dynamics
// MC_FLAGS: -I@R@/ct_rbd/include/ct -I@R@/ct_models -DNDEBUG
// MC_SAN: -Og -D_GLIBCXX_ASSERTIONS
// MC_SHARDS: 8
#include <ct/core/core.h>
#include <ct/models/HyA/codegen/HyALinearizedForward.h>
#include <ct/models/HyA/codegen/HyALinearizedReverse.h>
#include <ct/models/HyA/codegen/HyAInverseDynJacForward.h>
#include <ct/models/HyA/codegen/HyAInverseDynJacReverse.h>
#include <ct/models/HyA/codegen/HyAInverseDynHessian.h>
#include <ct/models/InvertedPendulum/codegen/InvertedPendulumActDynLinearizedForward.h>
#include <ct/models/Quadrotor/QuadrotorLinear.hpp>
#include <ct/models/HyA/codegen/HyALinearizedForward.cpp>
#include <ct/models/HyA/codegen/HyALinearizedReverse.cpp>
#include <ct/models/HyA/codegen/HyAInverseDynJacForward.cpp>
#include <ct/models/HyA/codegen/HyAInverseDynJacReverse.cpp>
#include <ct/models/HyA/codegen/HyAInverseDynHessian.cpp>
#include <ct/models/InvertedPendulum/codegen/InvertedPendulumActDynLinearizedForward.cpp>
#include <src/Quadrotor/quadrotor_ode.cpp>
#include <src/Quadrotor/A_quadrotor.cpp>
#include <src/Quadrotor/B_quadrotor.cpp>
#include "deriv.h"
using namespace ct::models;
// a linear system object of class L after construction, copy, clone or use at another point
template <class L>
static std::shared_ptr<L> object(mc::Ctx& c, const typename L::state_vector_t& x, const typename L::control_vector_t& u)
{
    std::shared_ptr<L> a(new L);
    int k = c.choose(4);
    if (k == 0)
        return a;
    a->getDerivativeState(x, u, 0.0);
    a->getDerivativeControl(x, u, 0.0);
    if (k == 1)
        return a;
    if (k == 2)
        return std::shared_ptr<L>(new L(*a));
    return std::shared_ptr<L>(a->clone());
}

// ---- quadrotor: Newton-Euler with Euler angles xyz
static M3 rot(int k, double a)
{
    M3 m = M3::Identity();
    int i = (k + 1) % 3, j = (k + 2) % 3;
    m(i, i) = m(j, j) = std::cos(a);
    m(i, j) = -std::sin(a);
    m(j, i) = std::sin(a);
    return m;
}
static VX quadOde(const VX& x, const VX& u)
{
    const double m = 0.546, Ix = 2.32e-3, Iz = 3e-4, g = 9.81;
    V3 q = x.segment<3>(3), qd = x.segment<3>(9);
    M3 A = rot(0, q(0)), B = rot(1, q(1)), C = rot(2, q(2)), R = A * B * C;
    M3 E;
    E << (B * C).transpose() * V3::UnitX(), C.transpose() * V3::UnitY(), V3::UnitZ();
    V3 w = E * qd;
    // columns turn with the axes that follow them
    M3 Ed;
    V3 w2 = C.transpose() * V3::UnitY() * qd(1) + V3::UnitZ() * qd(2), w3 = V3::UnitZ() * qd(2);
    Ed << -w2.cross(V3(E.col(0))), -w3.cross(V3(E.col(1))), V3::Zero();
    V3 I(Ix, Ix, Iz);
    V3 wd = (V3(u.tail<3>()) - w.cross(V3(I.cwiseProduct(w)))).cwiseQuotient(I);
    VX d(12);
    d << x.tail<6>(), R * V3(0, 0, u(0)) / m - V3(0, 0, g), E.inverse() * (wd - Ed * qd);
    return d;
}
static void quadPoint(mc::Ctx& c, VX& x, VX& u, int nr, int nu)
{
    static const double A[5] = {0.3, -1.2, 2.5, 0, -2.9}, T[4] = {0.4, -0.9, 1.2, 0}, W[4] = {0.7, -1.1, 0, 2.5}, F[3] = {5.3, 0, 2}, M[3] = {0.01, -0.02, 0};
    x = VX(12);
    int i = c.choose(5), j = c.choose(4), k = c.choose(5), a = c.choose(nr), b = c.choose(nr), d = c.choose(nr), e = c.choose(nu);
    x << 1, -2, 3, A[i], T[j], A[k], 0.5, 0.6, -0.7, W[a], W[(b + 1) % 4], W[(d + 3) % 4];
    u = VX(4);
    u << F[e], M[e], M[(e + 1) % 3], M[(e + 2) % 3];
}
MC_SUITE(quadrotor_dynamics, "quadrotor: 100 orientations x 27 (thorough 64) rates x 3 inputs against Newton-Euler")
{
    VX x, u, y;
    quadPoint(c, x, u, c.thorough ? 4 : 3, 3);
    static Quadrotor q;
    std::shared_ptr<Quadrotor> cl(q.clone());
    ct::core::StateVector<12> d;
    ct::core::ControlVector<4> uu(u);
    cl->computeControlledDynamics(ct::core::StateVector<12>(x), 0.0, uu, d);
    c.eqM(VX(d), quadOde(x, u), "dynamics of the quadrotor", 1e-9);
    c.step();
    c.state(c.hist);
}
MC_SUITE(quadrotor_linear, "quadrotor: 100 orientations x 8 (thorough 27) rates x 3 inputs: linearisation against differences")
{
    VX x, u;
    quadPoint(c, x, u, c.thorough ? 3 : 2, 3);
    QuadrotorLinear a;
    std::shared_ptr<QuadrotorLinear> l(c.flip() ? a.clone() : new QuadrotorLinear);
    ct::core::StateVector<12> xs(x);
    ct::core::ControlVector<4> us(u);
    MX A = l->getDerivativeState(xs, us), B = l->getDerivativeControl(xs, us);
    c.eqM(A, differences([&](const VX& y) { return quadOde(y, u); }, x, 5e-3), "state derivative of the quadrotor", 1e-7);
    c.eqM(B, differences([&](const VX& y) { return quadOde(x, y); }, u, 5e-3), "control derivative of the quadrotor", 1e-7);
    c.step(2);
    c.state(c.hist);
}
// ---- HyA
static Tree& hya()
{
    static Tree t = makeTree(HYA_links, HYA_frames);
    return t;
}
static VX hyaId(const VX& x, const VX& qdd)
{
    Tree& t = hya();
    t.setQ(x.head(6));
    return t.rnea(x.tail(6), qdd, V6::Zero(), GRAV_UP, V6::Zero(), t.noExt()).tau;
}
static VX hyaPoint(mc::Ctx& c, int vals, int np)
{
    VX x(12);
    x << config(c, 6, 6, vals), pattern(6, 1 + c.choose(np), 1.3);
    return x;
}
MC_SUITE(hya_linearised, "HyA: both generated linearisations at 3^6 configurations x 2 (thorough 4) velocities against differences of Newton-Euler")
{
    VX x = hyaPoint(c, 3, c.thorough ? 4 : 2), u = pattern(6, 2, 20);
    Tree& t = hya();
    t.setQ(x.head(6));
    MX H = t.massMatrix(false), Hi = H.inverse();
    VX qdd = Hi * (u - hyaId(x, VX::Zero(6)));
    MX A = MX::Zero(12, 12), B = MX::Zero(12, 6);
    A.topRightCorner(6, 6).setIdentity();
    A.bottomRows(6) = -Hi * differences([&](const VX& y) { return hyaId(y, qdd); }, x);
    B.bottomRows(6) = Hi;
    ct::core::StateVector<12> xs(x), x0;
    ct::core::ControlVector<6> us(u), u0;
    x0.setConstant(0.7);
    u0.setConstant(-1);
    static HyA::HyALinearizedForward f;
    static HyA::HyALinearizedReverse r;
    c.eqM(MX(f.getDerivativeState(xs, us, 0.0)), A, "forward-mode state derivative", 1e-6);
    c.eqM(MX(f.getDerivativeControl(xs, us, 0.0)), B, "forward-mode control derivative", 1e-6);
    c.eqM(MX(r.getDerivativeState(xs, us, 0.0)), A, "reverse-mode state derivative", 1e-6);
    c.eqM(MX(r.getDerivativeControl(xs, us, 0.0)), B, "reverse-mode control derivative", 1e-6);
    c.step(4);
    c.state(c.hist);
}
MC_SUITE(hya_inverse_dynamics, "HyA: both generated Jacobians and the Hessian of the inverse dynamics at 3^6 configurations x 2 (thorough 4) velocities")
{
    VX x = hyaPoint(c, 3, c.thorough ? 4 : 2);
    static HyA::HyAInverseDynJacForward f;
    static HyA::HyAInverseDynJacReverse r;
    static HyA::HyAInverseDynHessian h;
    MX J = differences([&](const VX& y) { return hyaId(y, VX::Zero(6)); }, x);
    c.eqM(MX(f.jacobian(x)), J, "forward-mode Jacobian", 1e-6);
    c.eqM(MX(r.jacobian(x)), J, "reverse-mode Jacobian", 1e-6);
    VX w = pattern(6, 3, 1.7);
    MX Hs = differences([&](const VX& y) { return VX(f.jacobian(y).transpose() * w); }, x);
    c.eqM(MX(h.hessian(x, w)), Hs, "Hessian", 1e-6);
    c.step(3);
    c.state(c.hist);
}
// ---- inverted pendulum driven by a series elastic actuator: spring 180.9 Nm/rad, gear ratio 50, motor velocity as input
MC_SUITE(pendulum_linearised, "pendulum with series elastic actuator: 9 angles x 3 velocities x 3 actuator states against differences of Newton-Euler")
{
    static Tree t = makeTree(INVERTEDPENDULUM_links, INVERTEDPENDULUM_frames);
    VX x(3), u(1);
    x << -2.8 + 0.7 * c.choose(9), -1.5 + 1.5 * c.choose(3), -0.6 + 0.6 * c.choose(3);
    u << -1 + 2 * c.choose(2);
    auto f = [&](const VX& y, const VX& v) {
        t.setQ(y.head(1));
        VX bias = t.rnea(y.segment(1, 1), VX::Zero(1), V6::Zero(), GRAV_UP, V6::Zero(), t.noExt()).tau;
        VX d(3);
        d << y(1), (180.9 * (y(2) - y(0)) - bias(0)) / t.massMatrix(false)(0, 0), v(0) / 50;
        return d;
    };
    typedef InvertedPendulum::InvertedPendulumActDynLinearizedForward L;
    L::state_vector_t xs(x), x0;
    L::control_vector_t us(u), u0;
    x0.setConstant(0.7);
    u0.setConstant(-1);
    std::shared_ptr<L> l = object<L>(c, x0, u0);
    c.eqM(MX(l->getDerivativeState(xs, us, 0.0)), differences([&](const VX& y) { return f(y, u); }, x), "state derivative of the pendulum", 1e-6);
    c.eqM(MX(l->getDerivativeControl(xs, us, 0.0)), differences([&](const VX& y) { return f(x, y); }, u), "control derivative of the pendulum", 1e-6);
    c.step(2);
    c.state(c.hist);
}
MC_SUITE(object_histories, "generated HyA linearisations after construction, evaluation elsewhere, copy and clone")
{
    ct::core::StateVector<12> xs, x0;
    ct::core::ControlVector<6> us, u0;
    xs << 0.3, -0.4, 1.1, 0.9, -2, 0.2, 1, 0, -1, 0.5, 0.3, 2;
    us << 1, 2, 3, -4, 5, 6;
    x0.setConstant(0.7);
    u0.setConstant(-1);
    typedef HyA::HyALinearizedForward F;
    typedef HyA::HyALinearizedReverse R;
    F f;
    auto a = object<F>(c, x0, u0);
    auto b = object<R>(c, x0, u0);
    MX A = f.getDerivativeState(xs, us, 0.0), B = f.getDerivativeControl(xs, us, 0.0);
    c.eqM(MX(a->getDerivativeState(xs, us, 0.0)), A, "state derivative, forward", 1e-12);
    c.eqM(MX(a->getDerivativeControl(xs, us, 0.0)), B, "control derivative, forward", 1e-12);
    c.eqM(MX(b->getDerivativeState(xs, us, 0.0)), A, "state derivative, reverse", 1e-6);
    c.eqM(MX(b->getDerivativeControl(xs, us, 0.0)), B, "control derivative, reverse", 1e-6);
    c.step(4);
    c.state(c.hist);
}
