// P06: discretised dynamics and their sensitivities
#include <ct/optcon/optcon.h>
#include <complex>
#include "mc.h"
// MC_LIBS: -lipopt -llapack -lblas
using namespace ct::core;
typedef StateVector<2> X;
typedef ControlVector<1> U;
typedef StateMatrix<2> MA;
typedef StateControlMatrix<2, 1> MB;
typedef std::complex<double> Z;
template <class T>
using V2 = Eigen::Matrix<T, 2, 1>;

// ---- right-hand sides, usable with complex numbers (complex-step derivatives of the reference maps)
// kind 0: nonlinear time varying; 1: LTI invertible; 2: LTI singular (double integrator); 3: separable mechanical
template <class T>
static V2<T> f(int kind, const V2<T>& x, double t, const T& u)
{
    V2<T> d;
    switch (kind)
    {
        case 0:
            d << x(1) + t * u * x(0), -x(0) * x(1) + u * u + t * t * x(0);
            return d;
        case 1:
            d << 0.5 * x(0) + x(1) - u, -2.0 * x(0) + 0.25 * x(1) + 2.0 * u;
            return d;
        case 2:
            d << x(1), 2.0 * u;
            return d;
        default:
            d << 1.5 * x(1) + 0.3 * x(0) * u, -x(0) * x(0) + x(1) * u * u;
            return d;
    }
}
static void jac(int kind, const X& x, double t, double u, MA& A, MB& B)
{
    for (int j = 0; j < 3; j++)
    {
        V2<Z> z = x.cast<Z>();
        Z uz(u);
        if (j < 2)
            z(j) += Z(0, 1e-30);
        else
            uz += Z(0, 1e-30);
        V2<Z> d = f<Z>(kind, z, t, uz);
        for (int i = 0; i < 2; i++)
            (j < 2 ? A(i, j) : B(i, 0)) = d(i).imag() / 1e-30;
    }
}
struct Gen : public ControlledSystem<2, 1>
{
    int kind;
    Gen(int k) : kind(k) {}
    Gen* clone() const override { return new Gen(*this); }
    void computeControlledDynamics(const X& x, const double& t, const U& u, X& d) override { d = f<double>(kind, x, t, u(0)); }
};
struct Mech : public SymplecticSystem<1, 1, 1>
{
    Mech* clone() const override { return new Mech(*this); }
    void computePdot(const X& x, const StateVector<1>& v, const U& u, StateVector<1>& pd) override
    {
        X y = x;
        y(1) = v(0);
        pd(0) = f<double>(3, y, 0, u(0))(0);
    }
    void computeVdot(const X& x, const StateVector<1>& p, const U& u, StateVector<1>& vd) override
    {
        X y = x;
        y(0) = p(0);
        vd(0) = f<double>(3, y, 0, u(0))(1);
    }
};
struct Lin : public LinearSystem<2, 1>
{
    int kind;
    MA A;
    MB B;
    Lin(int k) : kind(k) {}
    Lin* clone() const override { return new Lin(*this); }
    const MA& getDerivativeState(const X& x, const U& u, const double t) override
    {
        MB b;
        jac(kind, x, t, u(0), A, b);
        return A;
    }
    const MB& getDerivativeControl(const X& x, const U& u, const double t) override
    {
        MA a;
        jac(kind, x, t, u(0), a, B);
        return B;
    }
};
static std::shared_ptr<ControlledSystem<2, 1>> mkSys(int kind)
{
    if (kind == 3)
        return std::make_shared<Mech>();
    return std::make_shared<Gen>(kind);
}
// ---- reference step maps
template <class T>
static void stepRef(IntegrationType ty, int kind, V2<T>& x, double t, double h, const T& u, std::vector<V2<T>>* sub = nullptr)
{
    auto g = [&](const V2<T>& y, double s) {
        if (sub)
            sub->push_back(y);
        return f<T>(kind, y, s, u);
    };
    switch (ty)
    {
        case EULER:
        case EULERCT:
            x = V2<T>(x + h * g(x, t));
            break;
        case RK4:
        case RK4CT:
        {
            V2<T> a = g(x, t), b = g(x + 0.5 * h * a, t + 0.5 * h), k = g(x + 0.5 * h * b, t + 0.5 * h), d = g(x + h * k, t + h);
            x = V2<T>(x + h / 6.0 * (a + 2.0 * b + 2.0 * k + d));
            break;
        }
        case MODIFIED_MIDPOINT:
        {
            double m = h / 2;
            V2<T> z1 = x + m * g(x, t), z2 = x + 2 * m * g(z1, t + m);
            x = V2<T>(0.5 * (z1 + z2 + m * g(z2, t + h)));
            break;
        }
        default:
        {
            if (sub)
                sub->push_back(x);
            static const double as[] = {0.40518861839525227722, -0.28714404081652408900, 0.5 - (0.40518861839525227722 + (-0.28714404081652408900)),
                0.5 - (0.40518861839525227722 + (-0.28714404081652408900)), -0.28714404081652408900, 0.40518861839525227722};
            static const double bs[] = {-3.0 / 73.0, 17.0 / 59.0, 1.0 - 2.0 * (-3.0 / 73.0 + 17.0 / 59.0), 17.0 / 59.0, -3.0 / 73.0, 0.0};
            int n = ty == EULER_SYM ? 1 : 6;
            for (int i = 0; i < n; i++)
            {
                double a = ty == EULER_SYM ? 1.0 : as[i], b = ty == EULER_SYM ? 1.0 : bs[i];
                x(0) += a * h * f<T>(kind, x, t, u)(0);
                x(1) += b * h * f<T>(kind, x, t, u)(1);
            }
        }
    }
}
template <class T>
static V2<T> intervalRef(IntegrationType ty, int kind, V2<T> x, int n, double dt, int K, const T& u, std::vector<V2<T>>* sub = nullptr)
{
    for (int i = 0; i < K; i++)
        stepRef<T>(ty, kind, x, n * dt + i * (dt / K), dt / K, u, sub);
    return x;
}
static void sensRef(IntegrationType ty, int kind, const X& x, int n, double dt, int K, double u, MA& A, MB& B)
{
    for (int j = 0; j < 3; j++)
    {
        V2<Z> z = x.cast<Z>();
        Z uz(u);
        if (j < 2)
            z(j) += Z(0, 1e-30);
        else
            uz += Z(0, 1e-30);
        V2<Z> d = intervalRef<Z>(ty, kind, z, n, dt, K, uz);
        for (int i = 0; i < 2; i++)
            (j < 2 ? A(i, j) : B(i, 0)) = d(i).imag() / 1e-30;
    }
}
static const std::vector<IntegrationType> GEN = {EULER, RK4, EULERCT, RK4CT, MODIFIED_MIDPOINT};
static const std::vector<IntegrationType> ALL = {EULER, RK4, EULERCT, RK4CT, MODIFIED_MIDPOINT, EULER_SYM, RK_SYM};
static X pt(int i) { return i == 0 ? X(Eigen::Vector2d(1, -2)) : X(Eigen::Vector2d(-0.5, 0.75)); }
static U cu(int i)
{
    U u;
    u(0) = i == 0 ? 0.5 : -1.5;
    return u;
}
static bool sym(IntegrationType t) { return t == EULER_SYM || t == RK_SYM; }

MC_SUITE(discretizer_histories, "7 methods x 4 systems x initial (dt, substeps) in 2x3; all histories of 2 (quick) / 3 (thorough) operations: propagate (2 states x 3 stage indices x 2 controls), new parameters, new method, new system, continue on a clone; interval map and substeps compared after every propagation")
{
    IntegrationType ty = c.pick(ALL);
    int kind = sym(ty) ? 3 : c.choose(4);
    double dt = c.pick<double>({0.25, 0.1});
    int K = c.pick<int>({1, 2, 3});
    auto sys = mkSys(kind);
    typedef SystemDiscretizer<2, 1, 1, 1> D;
    std::shared_ptr<D> d(new D(sys, dt, ty, K));
    // the discretiser works on its own copy: the original may be changed freely
    int ops = c.thorough ? 3 : 2;
    for (int o = 0; o < ops; o++)
    {
        int op = o == ops - 1 ? 0 : c.choose(6);
        if (op == 1)
        {
            dt = c.pick<double>({0.5, 0.1});
            K = c.pick<int>({1, 4});
            d->setParameters(dt, K);
        }
        else if (op == 2)
        {
            ty = c.pick(kind == 3 ? ALL : GEN);
            d->setIntegrationType(ty);
            d->initialize();
        }
        else if (op == 3)
        {
            if (sym(ty))
                c.prune();
            kind = c.choose(4);
            d->changeContinuousTimeSystem(mkSys(kind));
        }
        else if (op == 4)
        {
            // continue with a clone while the original goes elsewhere
            std::shared_ptr<D> e(d->clone());
            X y;
            d->propagateControlledDynamics(pt(1), 5, cu(1), y);
            d->setParameters(7.0, 1);
            d = e;
        }
        else if (op == 5)
        {
            d->initialize();
        }
        if (op == 0)
        {
            int xi = c.choose(2), n = c.pick<int>({0, 1, 3}), ui = c.choose(2);
            X y;
            c.log() << "propagate x" << xi << " n" << n << " u" << ui << " type " << ty << " K " << K << " dt " << dt << "\n";
            d->propagateControlledDynamics(pt(xi), n, cu(ui), y);
            std::vector<V2<double>> sub;
            V2<double> want = intervalRef<double>(ty, kind, pt(xi), n, dt, K, cu(ui)(0), &sub);
            c.eqM(y, want, "propagated state", 1e-9);
            if (ty != RK_SYM && ty != MODIFIED_MIDPOINT)
            {
                auto xs = d->getSubstates();
                auto us = d->getSubcontrols();
                c.eqI(xs->size(), sub.size(), "number of substeps");
                c.eqI(us->size(), sub.size(), "number of substep controls");
                for (size_t i = 0; i < sub.size(); i++)
                {
                    c.eqM((*xs)[i], sub[i], "substep state", 1e-9);
                    c.eqM((*us)[i], cu(ui), "substep control", 1e-12);
                }
            }
        }
        c.step();
        c.state(mc::mix(mc::mix(mc::mix(ty, kind), mc::hd(dt)), mc::mix(K, c.hist)));
    }
}

MC_SUITE(symplectic_refused, "symplectic methods on non-symplectic systems and dimensions are refused at propagation")
{
    IntegrationType ty = c.pick<IntegrationType>({EULER_SYM, RK_SYM});
    int which = c.choose(2);
    X y;
    if (which == 0)
    {
        SystemDiscretizer<2, 1, 1, 1> d(mkSys(0), 0.1, ty, 1);
        c.throws([&] { d.propagateControlledDynamics(pt(0), 0, cu(0), y); }, "symplectic method on a non-symplectic system");
    }
    else
    {
        SystemDiscretizer<2, 1, 0, 0> d(mkSys(3), 0.1, ty, 1);
        c.throws([&] { d.propagateControlledDynamics(pt(0), 0, cu(0), y); }, "symplectic method with invalid dimensions");
    }
    c.step();
    c.state(ty * 2 + which);
}

// ---- closed-form approximations
typedef SensitivityApproximationSettings::APPROXIMATION AP;
static const std::vector<AP> APS = {AP::FORWARD_EULER, AP::BACKWARD_EULER, AP::SYMPLECTIC_EULER, AP::TUSTIN, AP::MATRIX_EXPONENTIAL};
static void approxRef(AP ap, int kind, const X& x, double u, const X& xn, int n, double dt, MA& A, MB& B)
{
    MA Ac, A2;
    MB Bc, B2;
    MA I = MA::Identity();
    jac(kind, x, n * dt, u, Ac, Bc);
    switch (ap)
    {
        case AP::FORWARD_EULER:
            A = I + dt * Ac;
            B = dt * Bc;
            return;
        case AP::BACKWARD_EULER:
            jac(kind, x, (n + 1) * dt, u, Ac, Bc);
            A = MA((I - dt * Ac).inverse());
            B = A * dt * Bc;
            return;
        case AP::SYMPLECTIC_EULER:
        {
            X m = x;
            m(0) = xn(0);
            jac(kind, m, n * dt, u, A2, B2);
            A(0, 0) = 1 + dt * Ac(0, 0);
            A(0, 1) = dt * Ac(0, 1);
            A(1, 0) = dt * A2(1, 0) * (1 + dt * Ac(0, 0));
            A(1, 1) = 1 + dt * A2(1, 1) + dt * A2(1, 0) * dt * Ac(0, 1);
            B(0) = dt * Bc(0);
            B(1) = dt * B2(1) + dt * A2(1, 0) * dt * Bc(0);
            return;
        }
        case AP::TUSTIN:
        {
            jac(kind, xn, (n + 1) * dt, u, A2, B2);
            MA inv = MA((I - 0.5 * dt * A2).inverse());
            A = inv * (I + 0.5 * dt * Ac);
            B = inv * dt * Bc;
            return;
        }
        default:
        {
            // power series of the exponential and of its integral
            Eigen::Matrix2d term = I, S = I, P = I * dt;
            Eigen::Matrix2d pt = I * dt;
            for (int k = 1; k < 40; k++)
            {
                term = Eigen::Matrix2d(term * Ac * dt / k);
                S += term;
                pt = Eigen::Matrix2d(pt * Ac * dt / (k + 1));
                P += pt;
            }
            A = S;
            B = P * Bc;
        }
    }
}
MC_SUITE(approximation_histories, "5 approximations x 4 systems x 2 dt; all histories of 2/3 operations: evaluate (2 states x 2 next states x 3 indices x 2 controls), change approximation / dt / settings / linear system, continue on a clone, linear propagation")
{
    AP ap = c.pick(APS);
    int kind = c.choose(4);
    double dt = c.pick<double>({0.25, 0.1});
    auto lin = std::make_shared<Lin>(kind);
    typedef SensitivityApproximation<2, 1, 1, 1> S;
    std::shared_ptr<S> s;
    int mk = c.choose(3);
    if (mk == 0)
        s.reset(new S(dt, lin, ap));
    else if (mk == 1)
        s.reset(new S(SensitivityApproximationSettings(dt, ap), lin));
    else
    {
        s.reset(new S(dt, nullptr, ap));
        MA A;
        MB B;
        c.throws([&] { s->getAandB(pt(0), cu(0), pt(1), 0, 1, A, B); }, "sensitivity without linear system");
        s->setLinearSystem(lin);
    }
    int ops = c.thorough ? 3 : 2;
    for (int o = 0; o < ops; o++)
    {
        int op = o == ops - 1 ? 0 : c.choose(6);
        if (op == 0)
        {
            int xi = c.choose(2), ni = c.choose(2), n = c.pick<int>({0, 1, 4}), ui = c.choose(2);
            MA A, Ar;
            MB B, Br;
            A.setConstant(7);
            B.setConstant(7);
            s->getAandB(pt(xi), cu(ui), pt(ni), n, 1, A, B);
            approxRef(ap, kind, pt(xi), cu(ui)(0), pt(ni), n, dt, Ar, Br);
            c.eqM(A, Ar, "A", 1e-9);
            c.eqM(B, Br, "B", 1e-9);
            // as a discrete-time linear system: next = A x + B u, linearised at x
            X y;
            s->propagateControlledDynamics(pt(xi), n, cu(ui), y);
            approxRef(ap, kind, pt(xi), cu(ui)(0), pt(xi), n, dt, Ar, Br);
            X want = Ar * pt(xi) + Br * cu(ui);
            c.eqM(y, want, "linear propagation", 1e-9);
            s->DiscreteLinearSystem<2, 1>::getAandB(pt(xi), cu(ui), n, A, B);
            c.eqM(A, Ar, "A (short form)", 1e-9);
            c.eqM(B, Br, "B (short form)", 1e-9);
        }
        else if (op == 1)
        {
            ap = c.pick(APS);
            s->setApproximation(ap);
            c.check(s->getApproximation() == ap, "getApproximation");
        }
        else if (op == 2)
        {
            dt = c.pick<double>({0.5, 0.01});
            s->setTimeDiscretization(dt);
        }
        else if (op == 3)
        {
            kind = c.choose(4);
            s->setLinearSystem(std::make_shared<Lin>(kind));
        }
        else if (op == 4)
        {
            ap = c.pick(APS);
            dt = c.pick<double>({0.5, 0.01});
            s->updateSettings(SensitivityApproximationSettings(dt, ap));
        }
        else
        {
            std::shared_ptr<S> e(s->clone());
            s->setTimeDiscretization(9.0);
            s->setLinearSystem(std::make_shared<Lin>(0));
            s->setApproximation(AP::FORWARD_EULER);
            s = e;
        }
        c.step();
        c.state(mc::mix(mc::mix((int)ap, kind), mc::mix(mc::hd(dt), c.hist)));
    }
}

// ---- integrated sensitivities
static const std::vector<IntegrationType> SENS = {EULER, EULERCT, RK4, RK4CT, EULER_SYM};
MC_SUITE(integrated_sensitivities, "5 steppers x 4 systems x 2 dt x 1..3 substeps; 3 stages rolled out, then all sequences of 2/3 stage queries, with changes of stepper size in between: A, B = derivative of the propagated state")
{
    IntegrationType ty = c.pick(SENS);
    int kind = ty == EULER_SYM ? 3 : c.choose(4);
    double dt = c.pick<double>({0.25, 0.1});
    int K = c.pick<int>({1, 2, 3});
    bool tv = kind == 1 || kind == 2 ? c.flip() : true;
    SystemDiscretizer<2, 1, 1, 1> d(mkSys(kind), dt, ty, K);
    auto ctl = std::make_shared<ConstantController<2, 1>>();
    SensitivityIntegrator<2, 1, 1, 1> s(c.flip() ? dt / K : 99.0, std::make_shared<Lin>(kind), ctl, ty, tv);
    s.setTimeDiscretization(dt / K);
    if (c.flip())
    {
        s.setStepper(ty == RK4 ? EULER : RK4);
        s.setStepper(ty);
    }
    typedef std::shared_ptr<StateVectorArray<2>> XP;
    typedef std::shared_ptr<ControlVectorArray<1>> UP;
    std::vector<XP, Eigen::aligned_allocator<XP>> xs;
    std::vector<UP, Eigen::aligned_allocator<UP>> us;
    int x0 = c.choose(2), u0 = c.choose(2);
    std::vector<X> x;
    std::vector<U> u;
    X cur = pt(x0);
    for (int n = 0; n < 3; n++)
    {
        x.push_back(cur);
        u.push_back(cu((u0 + n) % 2));
        X y;
        d.propagateControlledDynamics(cur, n, u[n], y);
        xs.push_back(d.getSubstates());
        us.push_back(d.getSubcontrols());
        cur = y;
    }
    x.push_back(cur);
    s.setSubstepTrajectoryReference(&xs, &us);
    for (int o = 0; o < (c.thorough ? 3 : 2); o++)
    {
        int n = c.choose(3);
        MA A, Ar;
        MB B, Br;
        A.setConstant(3);
        B.setConstant(3);
        s.getAandB(x[n], u[n], x[n + 1], n, K, A, B);
        sensRef(ty, kind, x[n], n, dt, K, u[n](0), Ar, Br);
        c.eqM(A, Ar, "integrated A", 1e-8);
        c.eqM(B, Br, "integrated B", 1e-8);
        c.step();
        c.state(mc::mix(mc::mix(ty, kind), mc::mix(mc::hd(dt) + K, c.hist)));
    }
}
MC_SUITE(sensitivity_stepper_refused, "every integration type is either supported or refused by the sensitivity integrator")
{
    int t = c.choose(11);
    IntegrationType ty = static_cast<IntegrationType>(t);
    bool ok = false;
    for (auto s : SENS)
        ok = ok || s == ty;
    auto ctl = std::make_shared<ConstantController<2, 1>>();
    auto mk = [&] { SensitivityIntegrator<2, 1, 1, 1> s(0.1, std::make_shared<Lin>(0), ctl, ty); };
    if (ok)
        mk();
    else
        c.throws(mk, "unsupported stepper");
    c.step();
    c.state(t);
}

// ---- more dimensions: positions, velocities and controls coupled by non-symmetric, non-commuting matrices
template <int P, int V>
struct Dim
{
    static const int N = P + V, M = 2;
    template <class T>
    using VN = Eigen::Matrix<T, N, 1>;
    template <class T>
    using VM = Eigen::Matrix<T, M, 1>;
    typedef Eigen::Matrix<double, N, N> JA;
    typedef Eigen::Matrix<double, N, M> JB;
    template <class T>
    static VN<T> f(const VN<T>& x, double t, const VM<T>& u)
    {
        VN<T> d;
        for (int i = 0; i < N; i++)
        {
            d(i) = (0.2 * i - 0.3) * u(0) + (i % 2 ? 0.7 : -0.4 * i) * u(1) + 0.1 * t * (i + 1);
            for (int j = 0; j < N; j++)
                d(i) += (0.25 * ((3 * i + 5 * j) % 7) - 0.6) * x(j) + (i == (j + 1) % N ? 0.2 * x(j) * x(i) : T(0)) + (j == 0 ? 0.1 * x(i) * u(i % 2) : T(0));
        }
        return d;
    }
    template <class F, class A_, class B_>
    static void diff(F g, const VN<double>& x, const VM<double>& u, A_& A, B_& B)
    {
        for (int j = 0; j < N + M; j++)
        {
            VN<Z> z = x.template cast<Z>();
            VM<Z> w = u.template cast<Z>();
            if (j < N)
                z(j) += Z(0, 1e-30);
            else
                w(j - N) += Z(0, 1e-30);
            VN<Z> d = g(z, w);
            for (int i = 0; i < N; i++)
                (j < N ? A(i, j) : B(i, j - N)) = d(i).imag() / 1e-30;
        }
    }
    static void jac(const VN<double>& x, double t, const VM<double>& u, JA& A, JB& B)
    {
        diff([&](const VN<Z>& z, const VM<Z>& w) { return f<Z>(z, t, w); }, x, u, A, B);
    }
    template <class T>
    static VN<T> interval(IntegrationType ty, VN<T> x, int n, double dt, int K, const VM<T>& u)
    {
        double h = dt / K;
        for (int k = 0; k < K; k++)
        {
            double t = n * dt + k * h;
            if (ty == EULER || ty == EULERCT)
                x = VN<T>(x + h * f<T>(x, t, u));
            else if (ty == RK4 || ty == RK4CT)
            {
                VN<T> a = f<T>(x, t, u), b = f<T>(x + 0.5 * h * a, t + 0.5 * h, u), e = f<T>(x + 0.5 * h * b, t + 0.5 * h, u), d = f<T>(x + h * e, t + h, u);
                x = VN<T>(x + h / 6.0 * (a + 2.0 * b + 2.0 * e + d));
            }
            else
            {
                VN<T> d = f<T>(x, 0, u);
                x.template head<P>() += h * d.template head<P>();
                d = f<T>(x, 0, u);
                x.template tail<V>() += h * d.template tail<V>();
            }
        }
        return x;
    }
    struct Sys : public ControlledSystem<N, M>
    {
        Sys* clone() const override { return new Sys(*this); }
        void computeControlledDynamics(const StateVector<N>& x, const double& t, const ControlVector<M>& u, StateVector<N>& d) override { d = f<double>(x, t, u); }
    };
    struct SymSys : public SymplecticSystem<P, V, M>
    {
        SymSys* clone() const override { return new SymSys(*this); }
        void computePdot(const StateVector<N>& x, const StateVector<V>& v, const ControlVector<M>& u, StateVector<P>& pd) override
        {
            StateVector<N> y = x;
            y.template tail<V>() = v;
            pd = f<double>(y, 0, u).template head<P>();
        }
        void computeVdot(const StateVector<N>& x, const StateVector<P>& p, const ControlVector<M>& u, StateVector<V>& vd) override
        {
            StateVector<N> y = x;
            y.template head<P>() = p;
            vd = f<double>(y, 0, u).template tail<V>();
        }
    };
    struct LinS : public LinearSystem<N, M>
    {
        bool frozen;
        StateMatrix<N> A;
        StateControlMatrix<N, M> B;
        LinS(bool fr) : frozen(fr) {}
        LinS* clone() const override { return new LinS(*this); }
        void eval(const StateVector<N>& x, const ControlVector<M>& u, double t)
        {
            JA a;
            JB b;
            jac(x, frozen ? 0 : t, u, a, b);
            A = a;
            B = b;
        }
        const StateMatrix<N>& getDerivativeState(const StateVector<N>& x, const ControlVector<M>& u, const double t) override
        {
            eval(x, u, t);
            return A;
        }
        const StateControlMatrix<N, M>& getDerivativeControl(const StateVector<N>& x, const ControlVector<M>& u, const double t) override
        {
            eval(x, u, t);
            return B;
        }
    };
    static StateVector<N> x(int k)
    {
        StateVector<N> r;
        for (int i = 0; i < N; i++)
            r(i) = (k ? -0.5 : 0.8) + 0.35 * i * (k ? 1 : -1);
        return r;
    }
    static ControlVector<M> u(int k)
    {
        ControlVector<M> r;
        r << (k ? 0.4 : -0.9), (k ? -0.3 : 1.1);
        return r;
    }
    static void integ(std::false_type, mc::Ctx& c, double, int, int, int, StateMatrix<N>&, StateControlMatrix<N, M>&, JA&, JB&) { c.prune(); }
    static void integ(std::true_type, mc::Ctx& c, double dt, int xi, int ui, int n, StateMatrix<N>& A, StateControlMatrix<N, M>& B, JA& Ar, JB& Br)
    {
        IntegrationType ty = c.pick(SENS);
        int K = c.pick<int>({1, 2, 3});
        std::shared_ptr<ControlledSystem<N, M>> sys;
        if (ty == EULER_SYM)
            sys = std::make_shared<SymSys>();
        else
            sys = std::make_shared<Sys>();
        SystemDiscretizer<N, M, P, V> d(sys, dt, ty, K);
        SensitivityIntegrator<N, M, P, V> s(dt / K, std::make_shared<LinS>(ty == EULER_SYM), std::make_shared<ConstantController<N, M>>(), ty, true);
        typedef std::shared_ptr<StateVectorArray<N>> XP;
        typedef std::shared_ptr<ControlVectorArray<M>> UP;
        std::vector<XP, Eigen::aligned_allocator<XP>> xs(3);
        std::vector<UP, Eigen::aligned_allocator<UP>> us(3);
        StateVector<N> y;
        d.propagateControlledDynamics(x(xi), n, u(ui), y);
        xs[n] = d.getSubstates();
        us[n] = d.getSubcontrols();
        c.eqM(y, interval<double>(ty, x(xi), n, dt, K, u(ui)), "interval map", 1e-9);
        s.setSubstepTrajectoryReference(&xs, &us);
        s.getAandB(x(xi), u(ui), y, n, K, A, B);
        VN<double> x0 = x(xi);
        VM<double> u0 = u(ui);
        diff([&](const VN<Z>& z, const VM<Z>& w) { return interval<Z>(ty, z, n, dt, K, w); }, x0, u0, Ar, Br);
    }
    static void run(mc::Ctx& c)
    {
        bool integrated = P == V && c.flip();
        double dt = c.pick<double>({0.2, 0.1});
        int xi = c.choose(2), ui = c.choose(2), n = c.choose(3);
        StateMatrix<N> A;
        StateControlMatrix<N, M> B;
        JA Ar;
        JB Br;
        if (integrated)
        {
            integ(std::integral_constant<bool, P == V>(), c, dt, xi, ui, n, A, B, Ar, Br);
            c.step(2);
        }
        else
        {
            AP ap = c.pick(APS);
            int ni = c.choose(2);
            SensitivityApproximation<N, M, P, V> s(dt, std::make_shared<LinS>(false), ap);
            s.getAandB(x(xi), u(ui), x(ni), n, 1, A, B);
            JA Ac, A2, I = JA::Identity();
            JB Bc, B2;
            jac(x(xi), n * dt, u(ui), Ac, Bc);
            switch (ap)
            {
                case AP::FORWARD_EULER:
                    Ar = I + dt * Ac;
                    Br = dt * Bc;
                    break;
                case AP::BACKWARD_EULER:
                    jac(x(xi), (n + 1) * dt, u(ui), Ac, Bc);
                    Ar = (I - dt * Ac).inverse();
                    Br = Ar * dt * Bc;
                    break;
                case AP::SYMPLECTIC_EULER:
                {
                    StateVector<N> m = x(xi);
                    m.template head<P>() = x(ni).template head<P>();
                    jac(m, n * dt, u(ui), A2, B2);
                    Eigen::MatrixXd Pn(P, N), Pu(P, M);
                    Pn = (I + dt * Ac).topRows(P);
                    Pu = dt * Bc.topRows(P);
                    Ar.topRows(P) = Pn;
                    Br.topRows(P) = Pu;
                    Ar.bottomRows(V) = dt * A2.bottomLeftCorner(V, P) * Pn;
                    Ar.bottomRightCorner(V, V) += Eigen::MatrixXd::Identity(V, V) + dt * A2.bottomRightCorner(V, V);
                    Br.bottomRows(V) = dt * B2.bottomRows(V) + dt * A2.bottomLeftCorner(V, P) * Pu;
                    break;
                }
                case AP::TUSTIN:
                {
                    jac(x(ni), (n + 1) * dt, u(ui), A2, B2);
                    JA inv = (I - 0.5 * dt * A2).inverse();
                    Ar = inv * (I + 0.5 * dt * Ac);
                    Br = inv * dt * Bc;
                    break;
                }
                default:
                {
                    JA term = I, S = I, Q = I * dt, q = I * dt;
                    for (int k = 1; k < 60; k++)
                    {
                        term = JA(term * Ac * dt / k);
                        S += term;
                        q = JA(q * Ac * dt / (k + 1));
                        Q += q;
                    }
                    Ar = S;
                    Br = Q * Bc;
                }
            }
            c.step();
        }
        c.eqM(A, Ar, "A (coupled system)", 1e-8);
        c.eqM(B, Br, "B (coupled system)", 1e-8);
        c.state(c.hist);
    }
};
MC_SUITE(coupled_4, "4 coupled states (2 positions, 2 velocities), 2 controls: 5 steppers x 1..3 substeps and 5 approximations x 2 dt x points x controls x stages") { Dim<2, 2>::run(c); }
MC_SUITE(coupled_5, "5 coupled states (3 positions, 2 velocities), 2 controls: 5 approximations x 2 dt x points x controls x stages") { Dim<3, 2>::run(c); }

// ---- the solver's view of it
using namespace ct::optcon;
MC_SUITE(solver_interface, "continuous system interface of the solvers: 5/7 methods x sensitivity integration or 5 approximations x substeps 1..2; all histories of 2/3 operations: propagate+linearise (2 points, 2 indices, 2 controls, 2 threads), reconfigure dt/substeps/approximation, change system")
{
    bool useInt = c.flip();
    IntegrationType ty = c.pick(useInt ? SENS : std::vector<IntegrationType>{EULER, RK4, EULERCT, RK4CT, EULER_SYM, RK_SYM});
    int kind = sym(ty) ? 3 : c.pick<int>({0, 2});
    NLOptConSettings st;
    st.integrator = ty;
    st.useSensitivityIntegrator = useInt;
    st.K_sim = c.pick<int>({1, 2});
    st.dt = 0.25;
    st.timeVaryingDiscretization = true;
    st.nThreads = 1;
    AP ap = useInt ? AP::FORWARD_EULER : c.pick(APS);
    st.discretization = ap;
    typedef ContinuousOptConProblem<2, 1> Prob;
    std::shared_ptr<CostFunctionQuadraticSimple<2, 1>> cost(new CostFunctionQuadraticSimple<2, 1>(
        Eigen::Matrix2d::Identity(), Eigen::Matrix<double, 1, 1>::Identity(), X(Eigen::Vector2d::Zero()), U(U::Zero()), X(Eigen::Vector2d::Zero()), Eigen::Matrix2d::Identity()));
    auto sys = mkSys(kind);
    auto lin = std::make_shared<Lin>(kind);
    Prob prob(1.0, X(Eigen::Vector2d::Zero()), sys, cost, lin);
    typedef OptconContinuousSystemInterface<2, 1, 1, 1> I;
    I itf(prob, st);
    itf.initialize();
    auto xs = std::make_shared<I::StateSubsteps>(3);
    auto us = std::make_shared<I::ControlSubsteps>(3);
    int ops = c.thorough ? 3 : 2;
    for (int o = 0; o < ops; o++)
    {
        int op = o == ops - 1 ? 0 : c.choose(3);
        if (op == 0)
        {
            int xi = c.choose(2), n = c.pick<int>({0, 2}), ui = c.choose(2), th = c.choose(2);
            X y;
            itf.propagateControlledDynamics(pt(xi), n, cu(ui), y, th);
            V2<double> want = intervalRef<double>(ty, kind, pt(xi), n, st.dt, st.K_sim, cu(ui)(0));
            c.eqM(y, want, "propagated state", 1e-9);
            itf.getSubstates((*xs)[n], th);
            itf.getSubcontrols((*us)[n], th);
            itf.setSubstepTrajectoryReference(xs, us, th);
            MA A, Ar;
            MB B, Br;
            itf.getAandB(pt(xi), cu(ui), y, n, st.K_sim, A, B, th);
            if (useInt)
                sensRef(ty, kind, pt(xi), n, st.dt, st.K_sim, cu(ui)(0), Ar, Br);
            else
                approxRef(ap, kind, pt(xi), cu(ui)(0), y, n, st.dt, Ar, Br);
            c.eqM(A, Ar, "A", 1e-8);
            c.eqM(B, Br, "B", 1e-8);
        }
        else if (op == 1)
        {
            st.dt = c.pick<double>({0.5, 0.1});
            st.K_sim = c.pick<int>({1, 3});
            if (!useInt)
                st.discretization = ap = c.pick<AP>({AP::TUSTIN, AP::FORWARD_EULER});
            itf.configure(st);
        }
        else
        {
            if (sym(ty))
                c.prune();
            kind = c.pick<int>({0, 1});
            itf.changeNonlinearSystem(mkSys(kind));
            itf.changeLinearSystem(std::make_shared<Lin>(kind));
        }
        c.step();
        c.state(mc::mix(mc::mix(ty, kind), mc::mix(mc::hd(st.dt) + st.K_sim, c.hist)));
    }
}
