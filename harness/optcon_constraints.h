// constraint alphabet shared by harnesses
#pragma once
#include <ct/optcon/optcon.h>
using namespace ct::core;
using namespace ct::optcon;
static const size_t NX = 3, NU = 2;
typedef StateVector<NX> X;
typedef ControlVector<NU> U;
typedef ConstraintBase<NX, NU> CB;
typedef Eigen::VectorXd Vd;
typedef Eigen::MatrixXd Md;
static X mkx(double a, double b, double c)
{
    X x;
    x << a, b, c;
    return x;
}
static U mku(double a, double b)
{
    U u;
    u << a, b;
    return u;
}
// dense nonlinear constraint with 2 rows relying on the library's default sparse handling
class DenseCon : public CB
{
public:
    double k;
    explicit DenseCon(double kk) : CB("dense"), k(kk)
    {
        lb_.resize(2);
        ub_.resize(2);
        lb_ << -1.0, -0.5 * k;
        ub_ << 2.0, 3.0 * k;
    }
    DenseCon* clone() const override { return new DenseCon(*this); }
    size_t getConstraintSize() const override { return 2; }
    VectorXs evaluate(const state_vector_t& x, const control_vector_t& u, const double t) override
    {
        VectorXs v(2);
        v << x(0) * x(1) + k * u(0) + t, x(2) * x(2) - u(1) * x(0) + 2 * t * u(0);
        return v;
    }
    MatrixXs jacobianState(const state_vector_t& x, const control_vector_t& u, const double t) override
    {
        MatrixXs j(2, 3);
        j << x(1), x(0), 0, -u(1), 0, 2 * x(2);
        return j;
    }
    MatrixXs jacobianInput(const state_vector_t& x, const control_vector_t& u, const double t) override
    {
        MatrixXs j(2, 2);
        j << k, 0, 2 * t, -x(0);
        return j;
    }
};
// one row, hand-made sparsity
class SparseCon : public CB
{
public:
    SparseCon() : CB("sparse")
    {
        lb_.resize(1);
        ub_.resize(1);
        lb_ << 0.25;
        ub_ << 0.75;
    }
    SparseCon* clone() const override { return new SparseCon(*this); }
    size_t getConstraintSize() const override { return 1; }
    VectorXs evaluate(const state_vector_t& x, const control_vector_t& u, const double t) override
    {
        VectorXs v(1);
        v << x(1) * x(1) * 3 + 5 * u(1);
        return v;
    }
    MatrixXs jacobianState(const state_vector_t& x, const control_vector_t& u, const double t) override
    {
        MatrixXs j(1, 3);
        j << 0, 6 * x(1), 0;
        return j;
    }
    MatrixXs jacobianInput(const state_vector_t& x, const control_vector_t& u, const double t) override
    {
        MatrixXs j(1, 2);
        j << 0, 5;
        return j;
    }
    size_t getNumNonZerosJacobianState() const override { return 1; }
    size_t getNumNonZerosJacobianInput() const override { return 1; }
    VectorXs jacobianStateSparse(const state_vector_t& x, const control_vector_t& u, const double t) override
    {
        VectorXs v(1);
        v << 6 * x(1);
        return v;
    }
    VectorXs jacobianInputSparse(const state_vector_t& x, const control_vector_t& u, const double t) override
    {
        VectorXs v(1);
        v << 5;
        return v;
    }
    void sparsityPatternState(Eigen::VectorXi& r, Eigen::VectorXi& c) override
    {
        r.resize(1);
        c.resize(1);
        r << 0;
        c << 1;
    }
    void sparsityPatternInput(Eigen::VectorXi& r, Eigen::VectorXi& c) override
    {
        r.resize(1);
        c.resize(1);
        r << 0;
        c << 1;
    }
};

// reference description of one constraint, written independently of the library
struct Ref
{
    std::shared_ptr<CB> impl;
    std::function<Vd(const X&, const U&, double)> f;
    std::function<Md(const X&, const U&, double)> jx, ju;
    Vd lb, ub;
    int nzx, nzu;
    const char* name;
};
static const int NCON = 8;
static Vd v(std::initializer_list<double> l)
{
    Vd r(l.size());
    int i = 0;
    for (double d : l)
        r(i++) = d;
    return r;
}
static Ref makeCon(int k)
{
    Ref r;
    switch (k)
    {
        case 0:
        {
            r.name = "state-box";
            r.lb = v({-1, -2, 0});
            r.ub = v({1, 0.5, 0});
            r.impl.reset(new StateConstraint<NX, NU>(X(r.lb), X(r.ub)));
            r.f = [](const X& x, const U&, double) { return Vd(x); };
            r.jx = [](const X&, const U&, double) { return Md(Md::Identity(3, 3)); };
            r.ju = [](const X&, const U&, double) { return Md(Md::Zero(3, 2)); };
            r.nzx = 3;
            r.nzu = 0;
            break;
        }
        case 1:
        {
            r.name = "state-box-sparse";
            r.lb = v({-3, 0.5});
            r.ub = v({-1, 4});
            Eigen::VectorXi sp(3);
            sp << 1, 0, 1;
            r.impl.reset(new StateConstraint<NX, NU>(r.lb, r.ub, sp));
            r.f = [](const X& x, const U&, double) { return v({x(0), x(2)}); };
            r.jx = [](const X&, const U&, double) {
                Md m = Md::Zero(2, 3);
                m(0, 0) = m(1, 2) = 1;
                return m;
            };
            r.ju = [](const X&, const U&, double) { return Md(Md::Zero(2, 2)); };
            r.nzx = 2;
            r.nzu = 0;
            break;
        }
        case 2:
        {
            r.name = "input-box";
            r.lb = v({-0.25, 1});
            r.ub = v({0.75, 2});
            r.impl.reset(new ControlInputConstraint<NX, NU>(U(r.lb), U(r.ub)));
            r.f = [](const X&, const U& u, double) { return Vd(u); };
            r.jx = [](const X&, const U&, double) { return Md(Md::Zero(2, 3)); };
            r.ju = [](const X&, const U&, double) { return Md(Md::Identity(2, 2)); };
            r.nzx = 0;
            r.nzu = 2;
            break;
        }
        case 3:
        {
            r.name = "input-box-sparse";
            r.lb = v({-0.125});
            r.ub = v({0.125});
            Eigen::VectorXi sp(2);
            sp << 0, 1;
            r.impl.reset(new ControlInputConstraint<NX, NU>(r.lb, r.ub, sp));
            r.f = [](const X&, const U& u, double) { return v({u(1)}); };
            r.jx = [](const X&, const U&, double) { return Md(Md::Zero(1, 3)); };
            r.ju = [](const X&, const U&, double) {
                Md m = Md::Zero(1, 2);
                m(0, 1) = 1;
                return m;
            };
            r.nzx = 0;
            r.nzu = 1;
            break;
        }
        case 4:
        {
            r.name = "terminal";
            X xf = mkx(0.5, -1, 2);
            r.lb = v({0, 0, 0});
            r.ub = v({0, 0, 0});
            r.impl.reset(new TerminalConstraint<NX, NU>(xf));
            r.f = [xf](const X& x, const U&, double) { return Vd(x - xf); };
            r.jx = [](const X&, const U&, double) { return Md(Md::Identity(3, 3)); };
            r.ju = [](const X&, const U&, double) { return Md(Md::Zero(3, 2)); };
            r.nzx = 3;
            r.nzu = 0;
            break;
        }
        case 5:
        {
            r.name = "obstacle";
            Eigen::Matrix3d A, S;
            A << 2, 0.5, 0, 0, 1, 0, 0, 0, 0.5;
            S << 0, -1, 0, 1, 0, 0, 0, 0, 1;
            Eigen::Vector3d x0(0.5, 0, -0.5);
            std::shared_ptr<Ellipsoid> ell(new Ellipsoid(x0, A, S));
            auto pos = [](const X& x, Eigen::Vector3d& p) { p << x(0) + x(1), x(1), x(2) * 2; };
            auto dpos = [](const X& x, Eigen::Matrix<double, 3, 3>& d) { d << 1, 1, 0, 0, 1, 0, 0, 0, 2; };
            r.impl.reset(new ObstacleConstraint<NX, NU>(ell, pos, dpos));
            Eigen::Matrix3d Q = S * A.transpose() * A * S.transpose();
            Eigen::Matrix3d D;
            D << 1, 1, 0, 0, 1, 0, 0, 0, 2;
            r.f = [=](const X& x, const U&, double) {
                Eigen::Vector3d p = D * x - x0;
                return v({p.dot(Q * p) - 1.0});
            };
            r.jx = [=](const X& x, const U&, double) {
                Eigen::Vector3d p = D * x - x0;
                return Md(2 * p.transpose() * Q * D);
            };
            r.ju = [](const X&, const U&, double) { return Md(Md::Zero(1, 2)); };
            r.lb = v({0});
            r.ub = v({std::numeric_limits<double>::max()});
            r.nzx = 3;
            r.nzu = 2;
            break;
        }
        case 6:
        {
            r.name = "dense-nonlinear";
            auto d = std::make_shared<DenseCon>(1.5);
            r.impl = d;
            r.f = [](const X& x, const U& u, double t) {
                return v({x(0) * x(1) + 1.5 * u(0) + t, x(2) * x(2) - u(1) * x(0) + 2 * t * u(0)});
            };
            r.jx = [](const X& x, const U& u, double t) {
                Md j(2, 3);
                j << x(1), x(0), 0, -u(1), 0, 2 * x(2);
                return j;
            };
            r.ju = [](const X& x, const U& u, double t) {
                Md j(2, 2);
                j << 1.5, 0, 2 * t, -x(0);
                return j;
            };
            r.lb = v({-1, -0.75});
            r.ub = v({2, 4.5});
            r.nzx = 6;
            r.nzu = 4;
            break;
        }
        case 7:
        {
            r.name = "one-row-sparse";
            r.impl.reset(new SparseCon());
            r.f = [](const X& x, const U& u, double t) { return v({x(1) * x(1) * 3 + 5 * u(1)}); };
            r.jx = [](const X& x, const U& u, double t) {
                Md j(1, 3);
                j << 0, 6 * x(1), 0;
                return j;
            };
            r.ju = [](const X& x, const U& u, double t) {
                Md j(1, 2);
                j << 0, 5;
                return j;
            };
            r.lb = v({0.25});
            r.ub = v({0.75});
            r.nzx = 1;
            r.nzu = 1;
            break;
        }
    }
    return r;
}
static Vd stack(const std::vector<Vd>& l)
{
    int n = 0;
    for (auto& x : l)
        n += x.size();
    Vd r(n);
    n = 0;
    for (auto& x : l)
    {
        r.segment(n, x.size()) = x;
        n += x.size();
    }
    return r;
}
static Md stackM(const std::vector<Md>& l, int cols)
{
    int n = 0;
    for (auto& x : l)
        n += x.rows();
    Md r(n, cols);
    n = 0;
    for (auto& x : l)
    {
        r.block(n, 0, x.rows(), cols) = x;
        n += x.rows();
    }
    return r;
}
static void checkSparse(mc::Ctx& c, const Vd& val, const Eigen::VectorXi& r, const Eigen::VectorXi& k, int nz, const Md& dense, const char* what)
{
    c.eqI(val.size(), nz, what);
    if (nz == 0)
        return;
    c.eqI(r.size(), nz, what);
    c.eqI(k.size(), nz, what);
    Md m = Md::Zero(dense.rows(), dense.cols());
    for (int i = 0; i < nz; i++)
    {
        c.check(r(i) >= 0 && r(i) < dense.rows() && k(i) >= 0 && k(i) < dense.cols(), "sparsity index out of range");
        m(r(i), k(i)) += val(i);
    }
    c.eqM(m, dense, what);
}
template <class CONT>
static void compareContainer(mc::Ctx& c, CONT& con, const std::vector<Ref>& ref, bool terminal, const X& x, const U& u, double t)
{
    std::vector<Vd> val, lb, ub;
    std::vector<Md> jx, ju;
    int nzx = 0, nzu = 0;
    for (auto& r : ref)
    {
        val.push_back(r.f(x, u, t));
        lb.push_back(r.lb);
        ub.push_back(r.ub);
        jx.push_back(r.jx(x, u, t));
        ju.push_back(r.ju(x, u, t));
        nzx += r.nzx;
        nzu += r.nzu;
    }
    Vd V = stack(val), L = stack(lb), H = stack(ub);
    Md JX = stackM(jx, 3), JU = stackM(ju, 2);
    Vd vu = (V - H).cwiseMax(0.0), vl = (V - L).cwiseMin(0.0);
    Eigen::VectorXi r, k;
    if (!terminal)
    {
        c.eqI(con.getIntermediateConstraintsCount(), V.size(), "intermediate count");
        c.eqI(con.getJacobianStateNonZeroCountIntermediate(), nzx, "intermediate state nnz");
        c.eqI(con.getJacobianInputNonZeroCountIntermediate(), nzu, "intermediate input nnz");
        c.eqM(con.getLowerBoundsIntermediate(), L, "intermediate lower bounds");
        c.eqM(con.getUpperBoundsIntermediate(), H, "intermediate upper bounds");
        if (V.size())
        {
            c.eqM(con.evaluateIntermediate(), V, "intermediate values");
            c.eqM(con.getUpperBoundsViolationIntermediate(), vu, "intermediate upper violation");
            c.eqM(con.getLowerBoundsViolationIntermediate(), vl, "intermediate lower violation");
            c.eqM(con.getTotalBoundsViolationIntermediate(), Vd(vu + vl), "intermediate total violation");
            c.eqM(con.jacobianStateIntermediate(), JX, "intermediate state jacobian");
            c.eqM(con.jacobianInputIntermediate(), JU, "intermediate input jacobian");
            con.sparsityPatternStateIntermediate(r, k);
            checkSparse(c, con.jacobianStateSparseIntermediate(), r, k, nzx, JX, "intermediate sparse state jacobian");
            con.sparsityPatternInputIntermediate(r, k);
            checkSparse(c, con.jacobianInputSparseIntermediate(), r, k, nzu, JU, "intermediate sparse input jacobian");
        }
    }
    else
    {
        c.eqI(con.getTerminalConstraintsCount(), V.size(), "terminal count");
        c.eqI(con.getJacobianStateNonZeroCountTerminal(), nzx, "terminal state nnz");
        c.eqI(con.getJacobianInputNonZeroCountTerminal(), nzu, "terminal input nnz");
        c.eqM(con.getLowerBoundsTerminal(), L, "terminal lower bounds");
        c.eqM(con.getUpperBoundsTerminal(), H, "terminal upper bounds");
        if (V.size())
        {
            c.eqM(con.evaluateTerminal(), V, "terminal values");
            c.eqM(con.getUpperBoundsViolationTerminal(), vu, "terminal upper violation");
            c.eqM(con.getLowerBoundsViolationTerminal(), vl, "terminal lower violation");
            c.eqM(con.getTotalBoundsViolationTerminal(), Vd(vu + vl), "terminal total violation");
            c.eqM(con.jacobianStateTerminal(), JX, "terminal state jacobian");
            c.eqM(con.jacobianInputTerminal(), JU, "terminal input jacobian");
            con.sparsityPatternStateTerminal(r, k);
            checkSparse(c, con.jacobianStateSparseTerminal(), r, k, nzx, JX, "terminal sparse state jacobian");
            con.sparsityPatternInputTerminal(r, k);
            checkSparse(c, con.jacobianInputSparseTerminal(), r, k, nzu, JU, "terminal sparse input jacobian");
        }
    }
    c.step();
}
struct Point
{
    X x;
    U u;
    double t;
};
static std::vector<Point> points()
{
    return {{mkx(0, 0, 0), mku(0, 0), 0.0}, {mkx(1.5, -0.75, 2), mku(-1, 0.5), 0.25}, {mkx(-2, 3, 0.5), mku(2, 1.5), -1.0}};
}
