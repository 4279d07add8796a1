// P08: automatic and numerical derivatives, linearisation
// MC_LIBS: -llapack -lblas -lcppad_lib
#include <ct/core/core.h>
#include <complex>
#include "mc.h"
#include "mc_file.h"
using namespace ct::core;
typedef Eigen::VectorXd Vd;
typedef Eigen::MatrixXd Md;

// second-order jets over at most 3 variables: an independent forward differentiation
struct J
{
    double v = 0;
    Eigen::Vector3d g = Eigen::Vector3d::Zero();
    Eigen::Matrix3d h = Eigen::Matrix3d::Zero();
    J(double d = 0) : v(d) {}
};
namespace Eigen {
template <>
struct NumTraits<J> : GenericNumTraits<J>
{
    enum
    {
        RequireInitialization = 1
    };
};
}
static J operator+(J a, const J& b)
{
    a.v += b.v, a.g += b.g, a.h += b.h;
    return a;
}
static J operator-(J a, const J& b)
{
    a.v -= b.v, a.g -= b.g, a.h -= b.h;
    return a;
}
static J operator*(const J& a, const J& b)
{
    J r(a.v * b.v);
    r.g = a.g * b.v + b.g * a.v;
    r.h = a.h * b.v + b.h * a.v + a.g * b.g.transpose() + b.g * a.g.transpose();
    return r;
}
static J chain(const J& a, double f, double d, double dd)
{
    J r(f);
    r.g = d * a.g;
    r.h = d * a.h + dd * a.g * a.g.transpose();
    return r;
}
static J sin(const J& a) { return chain(a, std::sin(a.v), std::cos(a.v), -std::sin(a.v)); }
static J exp(const J& a) { return chain(a, std::exp(a.v), std::exp(a.v), std::exp(a.v)); }
static J cos(const J& a) { return chain(a, std::cos(a.v), -std::sin(a.v), -std::cos(a.v)); }

// expression alphabet; every term refers to variables i and k
static const int NT = 8;
template <class S, class V>
static S term(int kind, const V& x, int i, int k)
{
    using std::sin;
    using std::exp;
    using std::cos;
    S a = x(i), b = x(k);
    switch (kind)
    {
        case 0: return S(1.5);
        case 1: return a;
        case 2: return a * b;
        case 3: return a * a * a - S(2.0) * b;
        case 4: return sin(a);
        case 5: return exp(S(0.5) * a);
        case 6: return cos(a * b);
        default: return S(3.0) * a - b * b;
    }
}
struct Fun
{
    int ka, kb, i, k, n, m;
    template <class S, class V>
    void operator()(const V& x, std::vector<S>& y) const
    {
        S a = term<S>(ka, x, i, k), b = term<S>(kb, x, k, i);
        y.resize(m);
        y[0] = a * b;
        if (m > 1)
            y[1] = a - b + x(n - 1);
        if (m > 2)
            y[2] = b * x(0);
    }
    std::vector<J> ref(const Vd& x) const
    {
        Eigen::Matrix<J, Eigen::Dynamic, 1> z(n);
        for (int q = 0; q < n; q++)
        {
            z(q).v = x(q);
            z(q).g(q) = 1;
        }
        std::vector<J> y;
        (*this)(z, y);
        return y;
    }
};
static Vd point(int n, int w)
{
    static const double p[4][3] = {{0, 0, 0}, {0.5, -1.25, 2}, {-2, 0.3, 1}, {3, 100, -0.01}};
    Vd x(n);
    for (int i = 0; i < n; i++)
        x(i) = p[w][i];
    return x;
}
static Fun pickFun(mc::Ctx& c, int n, int m)
{
    Fun f;
    f.n = n, f.m = m;
    f.ka = c.choose(NT);
    f.kb = c.choose(NT);
    f.i = c.choose(n);
    f.k = c.choose(n);
    c.log() << "f(" << f.ka << "," << f.kb << "," << f.i << "," << f.k << ") ";
    return f;
}
template <int IN, int OUT>
static typename DerivativesCppad<IN, OUT>::FUN_TYPE_AD adFun(const Fun& f)
{
    typedef DerivativesCppad<IN, OUT> D;
    return [f](const typename D::IN_TYPE_AD& x) {
        std::vector<typename D::AD_SCALAR> y;
        f(x, y);
        typename D::OUT_TYPE_AD r(f.m);
        for (int i = 0; i < f.m; i++)
            r(i) = y[i];
        return r;
    };
}
static Md place(mc::Ctx& c, const Vd& v, const Eigen::VectorXi& r, const Eigen::VectorXi& k, int rows, int cols)
{
    Md m = Md::Zero(rows, cols);
    c.eqI(r.size(), v.size(), "number of row indices");
    c.eqI(k.size(), v.size(), "number of column indices");
    for (int i = 0; i < v.size() && i < r.size() && i < k.size(); i++)
    {
        c.check(r(i) >= 0 && r(i) < rows && k(i) >= 0 && k(i) < cols, "sparse index out of range");
        if (r(i) >= 0 && r(i) < rows && k(i) >= 0 && k(i) < cols)
            m(r(i), k(i)) += v(i);
    }
    return m;
}
template <int IN, int OUT>
static void checkAd(mc::Ctx& c, DerivativesCppad<IN, OUT>& d, const Fun& f, int op, int w)
{
    c.step();
    Vd x = point(f.n, w), l = Vd::LinSpaced(f.m, 1.0, -2.0);
    auto r = f.ref(x);
    Vd y(f.m);
    Md jac(f.m, f.n), hes = Md::Zero(f.n, f.n);
    for (int i = 0; i < f.m; i++)
    {
        y(i) = r[i].v;
        jac.row(i) = r[i].g.head(f.n).transpose();
        hes += l(i) * r[i].h.topLeftCorner(f.n, f.n);
    }
    double tol = 1e-9;
    Vd v;
    Eigen::VectorXi a, b;
    switch (op)
    {
        case 0: c.eqM(Vd(d.forwardZero(x)), y, "function value", tol); break;
        case 1: c.eqM(Md(d.jacobian(x)), jac, "Jacobian", tol); break;
        case 2: c.eqM(Md(d.hessian(x, l)), hes, "weighted Hessian", tol); break;
        case 3:
            d.sparseJacobian(x, v, a, b);
            c.eqM(place(c, v, a, b, f.m, f.n), jac, "sparse Jacobian", tol);
            c.eqM(Vd(d.sparseJacobianValues(x)), v, "sparse Jacobian values", tol);
            break;
        case 4:
            d.sparseHessian(x, l, v, a, b);
            c.eqM(place(c, v, a, b, f.n, f.n), hes, "sparse Hessian", tol);
            c.eqM(Vd(d.sparseHessianValues(x, l)), v, "sparse Hessian values", tol);
            break;
    }
    c.state(mc::mix(c.hist, op));
}
template <int IN, int OUT>
static void adAll(mc::Ctx& c, int n, int m)
{
    mc::Quiet q;
    Fun f = pickFun(c, n, m);
    auto fa = adFun<IN, OUT>(f);
    DerivativesCppad<IN, OUT> d(fa, n, m);
    int w = c.choose(4);
    c.log() << "point " << w;
    for (int op = 0; op < 5; op++)
        checkAd(c, d, f, op, w);
}
MC_SUITE(cppad_3_2, "all functions built from 8x8 term kinds and 9 variable pairs (3 inputs, 2 outputs), 4 points; value, Jacobian, Hessian, sparse variants") { adAll<3, 2>(c, 3, 2); }
MC_SUITE(cppad_2_3, "same, 2 inputs, 3 outputs") { adAll<2, 3>(c, 2, 3); }
MC_SUITE(cppad_1_1, "same, 1 input, 1 output") { adAll<1, 1>(c, 1, 1); }
MC_SUITE(cppad_dynamic, "same with dynamic dimensions 1..3 x 1..3")
{
    int n = 1 + c.choose(3), m = 1 + c.choose(3);
    adAll<-1, -1>(c, n, m);
}
MC_SUITE(cppad_history, "all histories of 3 (quick) / 4 (thorough) of the 5 evaluations at 2 points, re-recording another function, cloning")
{
    mc::Quiet q;
    Fun f[2] = {{2, 6, 0, 1, 3, 2}, {3, 5, 2, 0, 3, 2}};
    int cur = 0;
    auto fa = adFun<3, 2>(f[0]);
    std::shared_ptr<DerivativesCppad<3, 2>> d(new DerivativesCppad<3, 2>(fa));
    for (int i = 0; i < (c.thorough ? 4 : 3); i++)
    {
        int op = c.choose(7);
        if (op == 5)
        {
            c.log() << "update ";
            cur = 1 - cur;
            auto g = adFun<3, 2>(f[cur]);
            d->update(g);
        }
        else if (op == 6)
        {
            c.log() << "clone ";
            d.reset(d->clone());
        }
        else
        {
            int w = 1 + c.choose(2);
            c.log() << "eval" << op << "@" << w << " ";
            checkAd(c, *d, f[cur], op, w);
        }
    }
    checkAd(c, *d, f[cur], 1, 1);
    checkAd(c, *d, f[cur], 2, 2);
}
template <int IN, int OUT>
static void numAll(mc::Ctx& c, int n, int m)
{
    Fun f = pickFun(c, n, m);
    bool two = c.flip();
    typedef DerivativesNumDiff<IN, OUT> D;
    typename D::Function fn = [f](const typename D::IN_TYPE& x) {
        std::vector<double> y;
        f(x, y);
        typename D::OUT_TYPE r(f.m);
        for (int i = 0; i < f.m; i++)
            r(i) = y[i];
        return r;
    };
    D d(fn, two);
    for (int k = 0; k < 2; k++)
    {
        int w = c.choose(3);
        c.step();
        Vd x = point(n, w);
        auto r = f.ref(x);
        Vd y(m);
        Md jac(m, n);
        for (int i = 0; i < m; i++)
            y(i) = r[i].v, jac.row(i) = r[i].g.head(n).transpose();
        Vd x0 = x;
        c.eqM(Vd(d.forwardZero(x)), y, "value", 1e-12);
        c.eqM(Md(d.jacobian(x)), jac, "numerical Jacobian", two ? 2e-6 : 1e-5);
        c.eqM(x, x0, "argument unchanged", 0);
    }
    c.state(c.hist);
}
MC_SUITE(numdiff_3_2, "all functions of the alphabet, one- and two-sided, pairs of points") { numAll<3, 2>(c, 3, 2); }
MC_SUITE(numdiff_1_1, "same, 1 input, 1 output") { numAll<1, 1>(c, 1, 1); }
MC_SUITE(numdiff_dynamic, "same with dynamic dimensions")
{
    int n = 1 + c.choose(2), m = 1 + c.choose(3);
    numAll<-1, -1>(c, n, m);
}

// ---- linearisers; systems whose right-hand side depends on all of x, u, t
typedef std::complex<double> Z;
template <class T, int NX, int NU>
static Eigen::Matrix<T, NX, 1> rhs(int kind, const Eigen::Matrix<T, NX, 1>& x, const Eigen::Matrix<T, NU, 1>& u, double t)
{
    Eigen::Matrix<T, NX, 1> d;
    const int h = NX / 2;
    for (int i = 0; i < NX; i++)
    {
        if (kind == 1 && i < h)
            d(i) = x(i + h);  // second order
        else
            d(i) = sin(x(i)) * x((i + 1) % NX) + (t + 1.0) * u(i % NU) * x((i + 2) % NX) + u((i + 1) % NU) * u(0) * 0.5 - t * x(i);
    }
    return d;
}
template <int NX, int NU>
static void jac(int kind, const StateVector<NX>& x, const ControlVector<NU>& u, double t, StateMatrix<NX>& A, StateControlMatrix<NX, NU>& B)
{
    for (int j = 0; j < NX + NU; j++)
    {
        Eigen::Matrix<Z, NX, 1> zx = x.template cast<Z>();
        Eigen::Matrix<Z, NU, 1> zu = u.template cast<Z>();
        if (j < NX)
            zx(j) += Z(0, 1e-30);
        else
            zu(j - NX) += Z(0, 1e-30);
        Eigen::Matrix<Z, NX, 1> d = rhs<Z, NX, NU>(kind, zx, zu, t);
        for (int i = 0; i < NX; i++)
            (j < NX ? A(i, j) : B(i, j - NX)) = d(i).imag() / 1e-30;
    }
}
template <int NX, int NU>
struct Sys : public ControlledSystem<NX, NU>
{
    int kind;
    Sys(int k) : ControlledSystem<NX, NU>(k ? SECOND_ORDER : GENERAL), kind(k) {}
    Sys* clone() const override { return new Sys(*this); }
    void computeControlledDynamics(const StateVector<NX>& x, const double& t, const ControlVector<NU>& u, StateVector<NX>& d) override { d = rhs<double, NX, NU>(kind, x, u, t); }
};
template <int NX, int NU>
struct DSys : public DiscreteControlledSystem<NX, NU>
{
    int kind;
    DSys(int k) : DiscreteControlledSystem<NX, NU>(k ? SECOND_ORDER : GENERAL), kind(k) {}
    DSys* clone() const override { return new DSys(*this); }
    void propagateControlledDynamics(const StateVector<NX>& x, const int n, const ControlVector<NU>& u, StateVector<NX>& d) override { d = rhs<double, NX, NU>(kind, x, u, n); }
};
template <int N>
static Eigen::Matrix<double, N, 1> val(int w)
{
    Eigen::Matrix<double, N, 1> r;
    for (int i = 0; i < N; i++)
        r(i) = w == 0 ? 0.0 : (w == 1 ? 0.4 * (i + 1) * (i % 2 ? -1 : 1) : 2.0 - 1.7 * i);
    return r;
}
template <int NX, int NU>
static void linRun(mc::Ctx& c, int depth)
{
    int kind = c.choose(2);
    bool two = c.flip();
    auto sys = std::make_shared<Sys<NX, NU>>(kind);
    std::shared_ptr<SystemLinearizer<NX, NU>> l(new SystemLinearizer<NX, NU>(sys, two));
    c.eqI(l->getType(), kind ? SECOND_ORDER : GENERAL, "system type");
    double tol = two ? 1e-6 : 1e-5;
    for (int i = 0; i < depth; i++)
    {
        int op = c.choose(5), w = c.choose(3), tw = c.choose(2);
        double t = tw ? 1.5 : 0.0;
        c.log() << "op" << op << "@" << w << "," << t << " ";
        c.step();
        StateVector<NX> x = val<NX>(w);
        ControlVector<NU> u = val<NU>((w + 1) % 3);
        StateMatrix<NX> A, Aw;
        StateControlMatrix<NX, NU> B, Bw;
        jac<NX, NU>(kind, x, u, t, Aw, Bw);
        if (op == 0)
            c.eqM(l->getDerivativeState(x, u, t), Aw, "A", tol);
        if (op == 1)
            c.eqM(l->getDerivativeControl(x, u, t), Bw, "B", tol);
        if (op == 2)
        {
            l->getDerivatives(A, B, x, u, t);
            c.eqM(A, Aw, "A (pair)", tol);
            c.eqM(B, Bw, "B (pair)", tol);
        }
        if (op == 3)
        {
            StateVector<NX> d;
            l->computeControlledDynamics(x, t, u, d);
            StateVector<NX> dw = Aw * x + Bw * u;
            c.eqM(d, dw, "linear dynamics", 10 * tol);
        }
        if (op == 4)
            l.reset(l->clone());
        c.state(mc::mix(c.hist, op * 10 + w));
    }
}
MC_SUITE(linearizer_4_2, "first/second order systems, one- and two-sided; all histories of 2 (quick) / 3 (thorough) of 5 operations at 3 points and 2 times") { linRun<4, 2>(c, c.thorough ? 3 : 2); }
MC_SUITE(linearizer_2_1, "same, 2 states, 1 input, depth 3") { linRun<2, 1>(c, c.thorough ? 4 : 3); }
template <int NX, int NU>
static void dlinRun(mc::Ctx& c, int depth)
{
    int kind = c.choose(2);
    bool two = c.flip();
    auto sys = std::make_shared<DSys<NX, NU>>(kind);
    std::shared_ptr<DiscreteSystemLinearizer<NX, NU>> l(new DiscreteSystemLinearizer<NX, NU>(sys, two));
    double tol = two ? 1e-6 : 1e-5;
    for (int i = 0; i < depth; i++)
    {
        int op = c.choose(5), w = c.choose(3), n = c.choose(2) * 3;
        c.log() << "op" << op << "@" << w << "," << n << " ";
        c.step();
        StateVector<NX> x = val<NX>(w), d;
        ControlVector<NU> u = val<NU>((w + 1) % 3);
        StateMatrix<NX> A, Aw;
        StateControlMatrix<NX, NU> B, Bw;
        jac<NX, NU>(kind, x, u, n, Aw, Bw);
        if (op == 0)
            c.eqM(l->getDerivativeState(x, u, n), Aw, "A", tol);
        if (op == 1)
            c.eqM(l->getDerivativeControl(x, u, n), Bw, "B", tol);
        if (op == 2)
        {
            l->getAandB(x, u, StateVector<NX>(val<NX>(2)), n, 1, A, B);
            c.eqM(A, Aw, "A (pair)", tol);
            c.eqM(B, Bw, "B (pair)", tol);
        }
        if (op == 3)
        {
            l->propagateControlledDynamics(x, n, u, d);
            StateVector<NX> dw = Aw * x + Bw * u;
            c.eqM(d, dw, "linear propagation", 10 * tol);
        }
        if (op == 4)
            l.reset(l->clone());
        c.state(mc::mix(c.hist, op * 10 + w));
    }
}
MC_SUITE(discrete_linearizer_3_2, "same for discrete systems, 3 states, 2 inputs") { dlinRun<3, 2>(c, c.thorough ? 3 : 2); }
MC_SUITE(discrete_linearizer_2_1, "same, 2 states, 1 input, depth 3") { dlinRun<2, 1>(c, c.thorough ? 4 : 3); }
