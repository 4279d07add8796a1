// P23: system models
// MC_LIBS: -lipopt -llapack -lblas
#include <ct/optcon/optcon.h>
#include <ct/core/systems/continuous_time/linear/LTISystem.h>
#include <ct/core/systems/discrete_time/linear/DiscreteLTISystem.h>
#include "mc.h"
#include "mc_file.h"
using namespace ct::core;

// ---- integer matrices and their exact rank
typedef std::vector<std::vector<long long>> IM;
static IM mul(const IM& a, const IM& b)
{
    IM r(a.size(), std::vector<long long>(b[0].size(), 0));
    for (size_t i = 0; i < a.size(); i++)
        for (size_t j = 0; j < b[0].size(); j++)
            for (size_t k = 0; k < b.size(); k++)
                r[i][j] += a[i][k] * b[k][j];
    return r;
}
static int rankOf(IM a)
{
    int r = 0, n = a.size(), m = a[0].size();
    for (int col = 0; col < m && r < n; col++)
    {
        int p = r;
        while (p < n && a[p][col] == 0)
            p++;
        if (p == n)
            continue;
        std::swap(a[p], a[r]);
        for (int i = r + 1; i < n; i++)
        {
            long long f = a[i][col], g = a[r][col];
            for (int j = 0; j < m; j++)
                a[i][j] = a[i][j] * g - f * a[r][j];
        }
        r++;
    }
    return r;
}
static IM draw(mc::Ctx& c, int n, int m, const std::vector<int>& vals)
{
    IM r(n, std::vector<long long>(m));
    for (auto& row : r)
        for (auto& v : row)
            v = c.pick(vals);
    return r;
}
template <class M>
static M toM(const IM& a)
{
    M r;
    for (int i = 0; i < r.rows(); i++)
        for (int j = 0; j < r.cols(); j++)
            r(i, j) = a[i][j];
    return r;
}
static IM hcat(const IM& a, const IM& b)
{
    IM r = a;
    for (size_t i = 0; i < a.size(); i++)
        r[i].insert(r[i].end(), b[i].begin(), b[i].end());
    return r;
}
static Eigen::MatrixXd dyn(const IM& a)
{
    Eigen::MatrixXd m(a.size(), a[0].size());
    for (size_t i = 0; i < a.size(); i++)
        for (size_t j = 0; j < a[0].size(); j++)
            m(i, j) = a[i][j];
    return m;
}
template <class SYS, size_t S, size_t C>
static void rankRun(mc::Ctx& c, const IM& A, const IM& B, const IM& Cm)
{
    SYS sys(toM<StateMatrix<S>>(A), toM<StateControlMatrix<S, C>>(B), toM<StateMatrix<S>>(Cm));
    IM co = B, blk = B, ob = Cm, row = Cm;
    for (size_t i = 1; i < S; i++)
    {
        blk = mul(A, blk);
        co = hcat(co, blk);
        row = mul(row, A);
        ob.insert(ob.end(), row.begin(), row.end());
    }
    Eigen::Matrix<double, S, S * C> CO;
    CO.setConstant(77);
    sys.computeControllabilityMatrix(CO);
    c.eqM(CO, dyn(co), "controllability matrix", 0);
    c.eqI(sys.isControllable(), rankOf(co) == (int)S, "controllable");
    Eigen::Matrix<double, S * S, S> O;
    O.setConstant(77);
    sys.computeObservabilityMatrix(O);
    c.eqM(O, dyn(ob), "observability matrix", 0);
    c.eqI(sys.isObservable(), rankOf(ob) == (int)S, "observable");
    c.step(4);
}
template <size_t S, size_t C>
static void rankAll(mc::Ctx& c, const std::vector<int>& va, const std::vector<int>& vb)
{
    bool obs = c.flip();
    IM A = draw(c, S, S, va);
    // controllability: all B, identity output; observability: all output maps with at most two non-zero rows
    IM B(S, std::vector<long long>(C, 0)), Cm(S, std::vector<long long>(S, 0));
    if (!obs)
    {
        B = draw(c, S, C, vb);
        for (size_t i = 0; i < S; i++)
            Cm[i][i] = 1;
    }
    else
    {
        B[0][0] = 1;
        Cm[c.choose(S)] = draw(c, 1, S, vb)[0];
        if (S > 1 && c.flip())
            Cm[S - 1] = draw(c, 1, S, {0, 1})[0];
    }
    rankRun<LTISystem<S, C>, S, C>(c, A, B, Cm);
    rankRun<DiscreteLTISystem<S, C>, S, C>(c, A, B, Cm);
    c.state(c.hist);
}
MC_SUITE(rank_1x1, "all 1x1 systems with entries in -2..2") { rankAll<1, 1>(c, {-2, -1, 0, 1, 2}, {-2, -1, 0, 1, 2}); }
MC_SUITE(rank_1x2, "all 1x2 systems with entries in -1..2") { rankAll<1, 2>(c, {-1, 0, 1, 2}, {-1, 0, 1, 2}); }
MC_SUITE(rank_2x1, "all 2x1 systems with entries in -2..2 (A) and -1..2 (B, C): controllability and observability, continuous and discrete")
{
    rankAll<2, 1>(c, {-2, -1, 0, 1, 2}, {-1, 0, 1, 2});
}
MC_SUITE(rank_2x2, "all 2x2 systems with entries in {0,1,3} (A) and {0,1,-1} (B, C)") { rankAll<2, 2>(c, {0, 1, 3}, {0, 1, -1}); }
MC_SUITE(rank_3x1, "all 3x1 systems with entries in {0,1} (A) and {0,1} (B, C)") { rankAll<3, 1>(c, {0, 1}, {0, 1}); }
MC_SUITE(rank_3x2, "all 3x2 systems with entries in {0,1}") { rankAll<3, 2>(c, {0, 1}, {0, 1}); }
MC_SUITE_THOROUGH(rank_3x1_signed, "all 3x1 systems with entries in {-1,0,1} (A) and {0,1} (B, C)") { rankAll<3, 1>(c, {-1, 0, 1}, {0, 1}); }

// ---- Gramians
MC_SUITE(gramians, "2x1 discrete systems with entries in {0,0.5,-0.75,2}, 4 input and 4 output maps, iteration limits 0..3, 40 and default: partial sums of A^i B B' A'^i and their limit")
{
    StateMatrix<2> A, C;
    for (int i = 0; i < 4; i++)
        A(i / 2, i % 2) = c.pick<double>({0, 0.5, -0.75, 2});
    Eigen::Matrix<double, 2, 1> B;
    B << c.pick<double>({0, 1}), c.pick<double>({0, -2});
    C << c.pick<double>({0, 1}), 0, c.pick<double>({0, 3}), 1;
    DiscreteLTISystem<2, 1> sys(A, B, C);
    int lim = c.pick<int>({0, 1, 2, 3, 40, -1});
    double tol = c.pick<double>({1e-9, 1e-12});
    bool conv = std::abs(A.trace()) < 2 && A.eigenvalues().cwiseAbs().maxCoeff() < 0.9;
    if ((lim < 0 || lim > 3) && !conv)
        c.prune();
    int n = lim < 0 ? 100 : lim;
    StateMatrix<2> cg = StateMatrix<2>::Zero(), og = cg, P = StateMatrix<2>::Identity();
    for (int i = 0; i < n; i++)
    {
        cg += P * B * B.transpose() * P.transpose();
        og += P.transpose() * C.transpose() * C * P;
        P = (P * A).eval();
    }
    StateMatrix<2> g = lim < 0 ? StateMatrix<2>(sys.computeControllabilityGramian()) : StateMatrix<2>(sys.computeControllabilityGramian(lim, tol));
    c.eqM(g, cg, "controllability Gramian", 1e-6);
    g = lim < 0 ? StateMatrix<2>(sys.computeObservabilityGramian()) : StateMatrix<2>(sys.computeObservabilityGramian(lim, tol));
    c.eqM(g, og, "observability Gramian", 1e-6);
    if (lim < 0)
    {
        // limit: W = A W A' + B B'
        g = sys.computeControllabilityGramian(2000, 1e-12);
        c.eqM(g, StateMatrix<2>(A * g * A.transpose() + B * B.transpose()), "controllability Gramian equation", 1e-7);
        g = sys.computeObservabilityGramian(2000, 1e-12);
        c.eqM(g, StateMatrix<2>(A.transpose() * g * A + C.transpose() * C), "observability Gramian equation", 1e-7);
    }
    c.step(4);
    c.state(c.hist);
}

// ---- controllers: time and state dependent
template <size_t S, size_t C>
struct Fb : public Controller<S, C>
{
    double k;
    bool withDer;
    Fb(double k, bool d = false) : k(k), withDer(d) {}
    Fb* clone() const override { return new Fb(*this); }
    static ControlVector<C> law(double k, const Eigen::Matrix<double, S, 1>& x, double t)
    {
        ControlVector<C> u;
        for (size_t i = 0; i < C; i++)
            u(i) = k * x(i % S) - 0.5 * x(S - 1) + t * (i + 1) + k;
        return u;
    }
    void computeControl(const StateVector<S>& x, const double& t, ControlVector<C>& u) override { u = law(k, x, t); }
    ControlMatrix<C> getDerivativeU0(const StateVector<S>& x, const double t) override { return ControlMatrix<C>::Constant(k + 10 * x(0) + 100 * t); }
    ControlMatrix<C> getDerivativeUf(const StateVector<S>& x, const double t) override { return ControlMatrix<C>::Constant(k - 10 * x(S - 1) - 100 * t); }
};
template <size_t S, size_t C>
struct DFb : public DiscreteController<S, C>
{
    double k;
    DFb(double k) : k(k) {}
    DFb* clone() const override { return new DFb(*this); }
    void computeControl(const StateVector<S>& x, const int n, ControlVector<C>& u) override { u = Fb<S, C>::law(k, x, n); }
};
template <size_t N>
static Eigen::Matrix<double, N, 1> pt(int which)
{
    Eigen::Matrix<double, N, 1> v;
    for (size_t i = 0; i < N; i++)
        v(i) = which == 0 ? 0.5 + i : which == 1 ? -2.0 * i + 1.25 : i == 0 ? 0 : 3.5;
    return v;
}

// ---- histories on continuous-time controlled systems. MODEL: parameters changed by op(), reference right-hand side rhs()
template <class MODEL>
static void contHistory(mc::Ctx& c, int depth)
{
    typedef typename MODEL::Sys Sys;
    static const size_t S = MODEL::S, C = MODEL::C;
    MODEL m;
    double k = -1;  // no controller
    bool startCtrl = c.flip();
    std::shared_ptr<Fb<S, C>> ctrl;
    if (startCtrl)
    {
        k = 0.25;
        ctrl = std::make_shared<Fb<S, C>>(k);
    }
    std::shared_ptr<Sys> s = m.make(c, ctrl);
    if (startCtrl)
        s->setController(ctrl);
    ControlVector<C> last = ControlVector<C>::Zero();
    c.eqM(s->getLastControlAction(), last, "initial control action", 0);
    for (int d = 0; d <= depth; d++)
    {
        int op = d == depth ? 0 : c.choose(6 + MODEL::OPS);
        c.step();
        c.log() << "op " << op << "; ";
        StateVector<S> x = pt<S>(d == depth ? 1 : c.choose(2)), der, want;
        double t = d == depth ? 1.5 : c.pick<double>({0, 1.5});
        switch (op)
        {
            case 0:  // closed loop
                der.setConstant(99);
                last.setZero();
                if (k != -1)
                    last = Fb<S, C>::law(k, x, t);
                s->computeDynamics(x, t, der);
                want = m.rhs(x, t, last);
                c.eqM(der, want, "closed-loop derivative");
                c.eqM(s->getLastControlAction(), last, "last control action");
                break;
            case 1:  // open loop
            {
                ControlVector<C> u = pt<C>(2);
                u(0) = -1.5;
                der.setConstant(99);
                s->computeControlledDynamics(x, t, u, der);
                want = m.rhs(x, t, u);
                c.eqM(der, want, "derivative");
                break;
            }
            case 2:
                k = 2;
                ctrl = std::make_shared<Fb<S, C>>(k);
                s->setController(ctrl);
                break;
            case 3:
                k = -1;
                ctrl.reset();
                s->setController(nullptr);
                break;
            case 4:  // the attached controller is shared: changing it takes effect
            {
                std::shared_ptr<Controller<S, C>> got;
                s->getController(got);
                c.check(got == s->getController(), "controller getters agree");
                c.eqI(got != nullptr, k != -1, "controller attached");
                if (!got)
                    c.prune();
                c.check(std::dynamic_pointer_cast<Fb<S, C>>(got) != nullptr, "controller attached is the one set");
                k = 5;
                std::static_pointer_cast<Fb<S, C>>(got)->k = 5;
                break;
            }
            case 5:  // continue on a clone
                s.reset(static_cast<Sys*>(s->clone()));
                c.eqM(s->getLastControlAction(), last, "control action of the clone");
                break;
            default: m.op(c, op - 6, *s);
        }
        m.queries(c, *s, x, t, k);
        if (m.usedControl)
            last = m.lastUsed;
    }
    c.state(c.hist);
}
struct ModelBase
{
    static const int OPS = 0;
    bool usedControl = false;
};
struct MLti : ModelBase
{
    typedef LTISystem<2, 2> Sys;
    static const size_t S = 2, C = 2;
    static const int OPS = 4;
    StateMatrix<2> A, Cm;
    StateControlMatrix<2, 2> B, D;
    ControlVector<2> lastUsed;
    std::shared_ptr<Sys> make(mc::Ctx& c, std::shared_ptr<Fb<2, 2>>)
    {
        A << 1, 2, -3, 0.5;
        B << 0, 1, 2, -1;
        Cm.setIdentity();
        D.setZero();
        if (c.flip())
            return std::make_shared<Sys>(A, B);
        Cm << 0, 1, 2, 3;
        if (c.flip())
            return std::make_shared<Sys>(A, B, Cm);
        D << 1, 0.5, 0, -2;
        return std::make_shared<Sys>(A, B, Cm, D);
    }
    StateVector<2> rhs(const StateVector<2>& x, double, const ControlVector<2>& u) { return StateVector<2>(A * x + B * u); }
    void op(mc::Ctx&, int o, Sys& s)
    {
        switch (o)
        {
            case 0: A(0, 1) = s.A()(0, 1) = 7; break;
            case 1: B(1, 0) = s.B()(1, 0) = -4; break;
            case 2: Cm(1, 1) = s.C()(1, 1) = 9; break;
            default: D(1, 0) = s.D()(1, 0) = 3; break;
        }
    }
    void queries(mc::Ctx& c, Sys& s, const StateVector<2>& x, double t, double)
    {
        ControlVector<2> u = pt<2>(2);
        StateVector<2> y;
        y.setConstant(99);
        s.computeOutput(x, t, u, y);
        c.eqM(y, StateVector<2>(Cm * x + D * u), "output");
        c.eqM(s.getDerivativeState(x, u, t), A, "A", 0);
        c.eqM(s.getDerivativeControl(x, u, t), B, "B", 0);
        StateMatrix<2> a;
        StateControlMatrix<2, 2> b;
        s.getDerivatives(a, b, x, u, t);
        c.eqM(a, A, "A", 0);
        c.eqM(b, B, "B", 0);
    }
};
struct LinTV : public LinearSystem<3, 2>
{
    StateMatrix<3> A;
    StateControlMatrix<3, 2> B;
    double p = 1;
    LinTV(const SYSTEM_TYPE& t) : LinearSystem<3, 2>(t) {}
    LinTV() {}
    LinTV* clone() const override { return new LinTV(*this); }
    static StateMatrix<3> refA(double p, const StateVector<3>& x, const ControlVector<2>& u, double t)
    {
        StateMatrix<3> A;
        A << p, x(0), u(0), t, 2, 3, u(1) * t, x(2), -1;
        return A;
    }
    static StateControlMatrix<3, 2> refB(double p, const StateVector<3>& x, const ControlVector<2>& u, double t)
    {
        StateControlMatrix<3, 2> B;
        B << p * x(1), 1, t, u(0), -u(1), p;
        return B;
    }
    const StateMatrix<3>& getDerivativeState(const StateVector<3>& x, const ControlVector<2>& u, const double t) override
    {
        A = refA(p, x, u, t);
        return A;
    }
    const StateControlMatrix<3, 2>& getDerivativeControl(const StateVector<3>& x, const ControlVector<2>& u, const double t) override
    {
        B = refB(p, x, u, t);
        return B;
    }
};
struct MLin : ModelBase
{
    typedef LinTV Sys;
    static const size_t S = 3, C = 2;
    static const int OPS = 1;
    double p = 1;
    ControlVector<2> lastUsed;
    std::shared_ptr<Sys> make(mc::Ctx& c, std::shared_ptr<Fb<3, 2>>)
    {
        bool so = c.flip();
        auto s = so ? std::make_shared<LinTV>(SYSTEM_TYPE::SECOND_ORDER) : std::make_shared<LinTV>();
        c.eqI(s->getType(), so ? SYSTEM_TYPE::SECOND_ORDER : SYSTEM_TYPE::GENERAL, "system type");
        return s;
    }
    StateVector<3> rhs(const StateVector<3>& x, double t, const ControlVector<2>& u) { return StateVector<3>(LinTV::refA(p, x, u, t) * x + LinTV::refB(p, x, u, t) * u); }
    void op(mc::Ctx&, int, Sys& s) { s.p = p = p + 2; }
    void queries(mc::Ctx& c, Sys& s, const StateVector<3>& x, double t, double)
    {
        ControlVector<2> u = pt<2>(2);
        StateMatrix<3> a;
        StateControlMatrix<3, 2> b;
        s.getDerivatives(a, b, x, u, t);
        c.eqM(a, LinTV::refA(p, x, u, t), "A", 0);
        c.eqM(b, LinTV::refB(p, x, u, t), "B", 0);
        c.check(!s.isSymplectic(), "linear system is not symplectic");
    }
};
struct MSo : ModelBase
{
    typedef SecondOrderSystem Sys;
    static const size_t S = 2, C = 1;
    static const int OPS = 4;
    double w, z, g;
    ControlVector<1> lastUsed;
    std::shared_ptr<Sys> make(mc::Ctx& c, std::shared_ptr<Fb<2, 1>> ctrl)
    {
        std::shared_ptr<Sys> s;
        switch (c.choose(5))
        {
            case 0: w = 3, z = 1, g = 1; s = std::make_shared<Sys>(3.0); break;
            case 1: w = 3, z = 0.25, g = 1; s = std::make_shared<Sys>(3.0, 0.25); break;
            case 2: w = 2, z = 1.5, g = -4; s = std::make_shared<Sys>(2.0, 1.5, -4.0); break;
            case 3: w = 2, z = 1.5, g = 0.5; s = std::make_shared<Sys>(2.0, 1.5, 0.5, ctrl); break;
            default: w = 3, z = 5.0 / 12, g = 2; s = std::make_shared<Sys>(18.0, 2.0, 5.0, 2.0, ctrl); break;  // k, m, d
        }
        c.eqI(s->getType(), SYSTEM_TYPE::SECOND_ORDER, "system type");
        return s;
    }
    StateVector<2> rhs(const StateVector<2>& x, double, const ControlVector<1>& u)
    {
        StateVector<2> d;
        d << x(1), g * w * w * u(0) - 2 * z * w * x(1) - w * w * x(0);
        return d;
    }
    void op(mc::Ctx&, int o, Sys& s)
    {
        switch (o)
        {
            case 0: w = 5, z = 1, g = 1; s.setDynamics(5.0); break;
            case 1: w = 0.5, z = 2, g = 3; s.setDynamics(0.5, 2.0, 3.0); break;
            case 2: w = -1, z = 0, g = 0; s.setDynamics(-1.0, 0.0, 0.0); break;
            default: w = 1, z = -0.5, g = 1; s.setDynamics(1.0, -0.5, 1.0); break;
        }
    }
    void queries(mc::Ctx& c, Sys& s, const StateVector<2>&, double, double)
    {
        mc::Quiet q;
        c.eqI(s.checkParameters(), z >= 0 && w >= 0 && g > 0, "parameter check");
    }
};
MC_SUITE(lti, "LTI system, 3 constructors, with and without controller; all histories of 3 (quick) / 4 (thorough) of 10 operations at 2 states x 2 times")
{
    contHistory<MLti>(c, c.thorough ? 4 : 3);
}
MC_SUITE(linear, "time-, state- and input-dependent linear system, 2 types; all histories of 3/4 of 7 operations") { contHistory<MLin>(c, c.thorough ? 4 : 3); }
MC_SUITE(second_order, "second-order system, 5 parameterisations; all histories of 3/4 of 10 operations") { contHistory<MSo>(c, c.thorough ? 4 : 3); }

// symplectic: 2 positions, 1 velocity, 1 control
struct Sym : public SymplecticSystem<2, 1, 1>
{
    double p = 1;
    Sym() {}
    Sym(std::shared_ptr<Controller<3, 1>> ctrl, const SYSTEM_TYPE& t) : SymplecticSystem<2, 1, 1>(ctrl, t) {}
    Sym* clone() const override { return new Sym(*this); }
    static StateVector<2> rp(double p, const StateVector<3>& x, const StateVector<1>& v, const ControlVector<1>& u)
    {
        StateVector<2> r;
        r << p * v(0) + x(1), x(0) * u(0) - x(2);
        return r;
    }
    static StateVector<1> rv(double p, const StateVector<3>& x, const StateVector<2>& q, const ControlVector<1>& u)
    {
        StateVector<1> r;
        r << p * q(1) - 3 * q(0) + u(0) * x(2);
        return r;
    }
    void computePdot(const StateVector<3>& x, const StateVector<1>& v, const ControlVector<1>& u, StateVector<2>& d) override { d = rp(p, x, v, u); }
    void computeVdot(const StateVector<3>& x, const StateVector<2>& q, const ControlVector<1>& u, StateVector<1>& d) override { d = rv(p, x, q, u); }
};
struct MSym : ModelBase
{
    typedef Sym Sys;
    static const size_t S = 3, C = 1;
    static const int OPS = 3;
    double p = 1;
    ControlVector<1> lastUsed;
    int pend = 0;
    std::shared_ptr<Sys> make(mc::Ctx& c, std::shared_ptr<Fb<3, 1>> ctrl)
    {
        bool so = c.flip();
        auto s = so ? std::make_shared<Sym>(ctrl, SYSTEM_TYPE::SECOND_ORDER) : std::make_shared<Sym>();
        c.eqI(s->getType(), so ? SYSTEM_TYPE::SECOND_ORDER : SYSTEM_TYPE::GENERAL, "system type");
        c.check(s->isSymplectic(), "is symplectic");
        return s;
    }
    StateVector<3> rhs(const StateVector<3>& x, double, const ControlVector<1>& u)
    {
        StateVector<3> d;
        d << Sym::rp(p, x, x.tail<1>(), u), Sym::rv(p, x, x.head<2>(), u);
        return d;
    }
    void op(mc::Ctx&, int o, Sys& s)
    {
        if (o == 0)
            s.p = p = -2;
        else
            pend = o;
    }
    void queries(mc::Ctx& c, Sys& s, const StateVector<3>& x, double t, double k)
    {
        usedControl = pend != 0;
        if (!pend)
            return;
        SymplecticSystem<2, 1, 1>& b = s;
        bool dflt = c.flip();
        lastUsed.setZero();
        if (k != -1)
            lastUsed = Fb<3, 1>::law(k, x, dflt ? 0.0 : t);
        if (pend == 1)
        {
            StateVector<1> v;
            v << 4.5;
            StateVector<2> d;
            d.setConstant(99);
            if (dflt)
                b.computePdot(x, v, d);
            else
                b.computePdot(x, v, d, t);
            c.eqM(d, Sym::rp(p, x, v, lastUsed), "position derivative under feedback");
        }
        else
        {
            StateVector<2> q;
            q << -1, 6;
            StateVector<1> d;
            d.setConstant(99);
            if (dflt)
                b.computeVdot(x, q, d);
            else
                b.computeVdot(x, q, d, t);
            c.eqM(d, Sym::rv(p, x, q, lastUsed), "velocity derivative under feedback");
        }
        pend = 0;
    }
};
MC_SUITE(symplectic, "symplectic system (2 positions, 1 velocity), 2 constructors; all histories of 3/4 of 9 operations incl. partial derivatives under feedback") { contHistory<MSym>(c, c.thorough ? 4 : 3); }

// ---- discrete-time systems
struct DLinTV : public DiscreteLinearSystem<3, 2>
{
    double p = 1;
    DLinTV* clone() const override { return new DLinTV(*this); }
    using DiscreteLinearSystem<3, 2>::getAandB;
    void getAandB(const StateVector<3>& x, const ControlVector<2>& u, const StateVector<3>& xn, const int n, size_t sub, StateMatrix<3>& A, StateControlMatrix<3, 2>& B) override
    {
        A = LinTV::refA(p, x, u, n) + 0.25 * (xn - x)(0) * StateMatrix<3>::Identity() + (sub - 1.0) * StateMatrix<3>::Ones();
        B = LinTV::refB(p, x, u, n);
    }
};
template <class SYS, size_t S, size_t C, class RHS, class OP, class EXTRA>
static void discHistory(mc::Ctx& c, int depth, std::shared_ptr<SYS> s, RHS rhs, int nops, OP opf, EXTRA extra)
{
    double k = -1;
    if (c.flip())
        s->setController(std::make_shared<DFb<S, C>>(k = 0.25));
    for (int d = 0; d <= depth; d++)
    {
        int op = d == depth ? 0 : c.choose(6 + nops);
        c.step();
        c.log() << "op " << op << "; ";
        StateVector<S> x = pt<S>(d == depth ? 1 : c.choose(2)), nx;
        int n = d == depth ? 3 : c.pick<int>({0, 3});
        nx.setConstant(99);
        ControlVector<C> u = ControlVector<C>::Zero();
        switch (op)
        {
            case 0:
                if (k != -1)
                    u = Fb<S, C>::law(k, x, n);
                s->propagateDynamics(x, n, nx);
                c.eqM(nx, rhs(x, n, u), "closed-loop successor");
                break;
            case 1:
                u = pt<C>(2);
                u(0) = -1.5;
                s->propagateControlledDynamics(x, n, u, nx);
                c.eqM(nx, rhs(x, n, u), "successor");
                break;
            case 2: s->setController(std::make_shared<DFb<S, C>>(k = 2)); break;
            case 3:
                k = -1;
                s->setController(nullptr);
                break;
            case 4:
            {
                std::shared_ptr<DiscreteController<S, C>> got;
                s->getController(got);
                c.check(got == s->getController(), "controller getters agree");
                c.eqI(got != nullptr, k != -1, "controller attached");
                if (!got)
                    c.prune();
                k = 5;
                std::static_pointer_cast<DFb<S, C>>(got)->k = 5;
                break;
            }
            case 5: s.reset(static_cast<SYS*>(s->clone())); break;
            default: opf(op - 6, *s);
        }
        extra(*s, x, n);
    }
    c.state(c.hist);
}
MC_SUITE(discrete_linear, "time-, state- and input-dependent discrete linear system; all histories of 3/4 of 7 operations")
{
    double p = 1;
    auto s = std::make_shared<DLinTV>();
    discHistory<DLinTV, 3, 2>(c, c.thorough ? 4 : 3, s,
        [&](const StateVector<3>& x, int n, const ControlVector<2>& u) { return StateVector<3>(LinTV::refA(p, x, u, n) * x + LinTV::refB(p, x, u, n) * u); }, 1,
        [&](int, DLinTV& y) { y.p = p = p + 2; },
        [&](DLinTV& y, const StateVector<3>& x, int n) {
            ControlVector<2> u = pt<2>(2);
            StateMatrix<3> a;
            StateControlMatrix<3, 2> b;
            y.getAandB(x, u, n, a, b);
            c.eqM(a, LinTV::refA(p, x, u, n), "A", 0);
            c.eqM(b, LinTV::refB(p, x, u, n), "B", 0);
        });
}
MC_SUITE(discrete_lti, "discrete LTI system, 3 constructors; all histories of 3/4 of 10 operations")
{
    StateMatrix<2> A, Cm;
    StateControlMatrix<2, 2> B, D;
    A << 1, 2, -3, 0.5;
    B << 0, 1, 2, -1;
    Cm.setIdentity();
    D.setZero();
    typedef DiscreteLTISystem<2, 2> Sys;
    std::shared_ptr<Sys> s;
    int ct = c.choose(3);
    if (ct >= 1)
        Cm << 0, 1, 2, 3;
    if (ct == 2)
        D << 1, 0.5, 0, -2;
    s = ct == 0 ? std::make_shared<Sys>(A, B) : ct == 1 ? std::make_shared<Sys>(A, B, Cm) : std::make_shared<Sys>(A, B, Cm, D);
    discHistory<Sys, 2, 2>(c, c.thorough ? 4 : 3, s, [&](const StateVector<2>& x, int, const ControlVector<2>& u) { return StateVector<2>(A * x + B * u); }, 4,
        [&](int o, Sys& y) {
            switch (o)
            {
                case 0: A(0, 1) = y.A()(0, 1) = 7; break;
                case 1: B(1, 0) = y.B()(1, 0) = -4; break;
                case 2: Cm(1, 1) = y.C()(1, 1) = 9; break;
                default: D(1, 0) = y.D()(1, 0) = 3; break;
            }
        },
        [&](Sys& y, const StateVector<2>& x, int n) {
            ControlVector<2> u = pt<2>(2);
            StateVector<2> o;
            o.setConstant(99);
            y.computeOutput(x, n, u, o);
            c.eqM(o, StateVector<2>(Cm * x + D * u), "output");
            StateMatrix<2> a;
            StateControlMatrix<2, 2> b;
            y.getAandB(x, u, n, a, b);
            c.eqM(a, A, "A", 0);
            c.eqM(b, B, "B", 0);
        });
}

// ---- disturbed systems
struct Plant : public ControlledSystem<2, 2>
{
    double p = 1;
    Plant(std::shared_ptr<Controller<2, 2>> ctrl = nullptr) : ControlledSystem<2, 2>(ctrl) {}
    Plant* clone() const override { return new Plant(*this); }
    static StateVector<2> rhs(double p, const Eigen::Matrix<double, 2, 1>& x, double t, const ControlVector<2>& u)
    {
        StateVector<2> d;
        d << p * x(1) + u(0) * t, x(0) * u(1) - u(0) + 2 * t;
        return d;
    }
    void computeControlledDynamics(const StateVector<2>& x, const double& t, const ControlVector<2>& u, StateVector<2>& d) override { d = rhs(p, x, t, u); }
};
struct Dist : public ct::optcon::DisturbedSystem<2, 1, 2>
{
    Dist() {}
    Dist(std::shared_ptr<Controller<2, 2>> ctrl) : ct::optcon::DisturbedSystem<2, 1, 2>(ctrl) {}
    Dist* clone() const override { return new Dist(*this); }
    static StateVector<3> rhs(const StateVector<3>& x, double t, const ControlVector<2>& u)
    {
        StateVector<3> d;
        d << x(1) * x(2) + u(0), u(1) * t - x(0), 0.5 * x(2);
        return d;
    }
    void computeControlledDynamics(const StateVector<3>& x, const double& t, const ControlVector<2>& u, StateVector<3>& d) override { d = rhs(x, t, u); }
};
MC_SUITE(disturbed, "input-disturbed and general disturbed systems with and without nominal controller; all histories of 4 (quick) / 5 (thorough) of 6 operations")
{
    mc::Quiet quiet;
    bool input = c.flip();
    bool viaCtor = c.flip();
    double k = viaCtor ? 0.25 : -1, p = 1;
    std::shared_ptr<Fb<2, 2>> ctrl = viaCtor ? std::make_shared<Fb<2, 2>>(k) : nullptr;
    auto plant = std::make_shared<Plant>(ctrl);
    std::shared_ptr<ct::optcon::InputDisturbedSystem<2, 2>> id;
    std::shared_ptr<Dist> ds;
    bool bare = false;  // no controller wrapper: acts as a system without controller
    if (input)
        id = std::make_shared<ct::optcon::InputDisturbedSystem<2, 2>>(plant);
    else if (viaCtor)
        ds = std::make_shared<Dist>(ctrl);
    else
        ds = std::make_shared<Dist>(), bare = true;
    int depth = c.thorough ? 5 : 4;
    for (int d = 0; d <= depth; d++)
    {
        int op = d == depth ? 0 : c.choose(6);
        c.step();
        c.log() << "op " << op << "; ";
        double t = d == depth ? 1.5 : c.pick<double>({0.0, 1.5});
        ControlVector<2> u;
        u << 2, -3;
        if (op <= 1 || op == 5)
        {
            auto go = [&](ControlledSystem<4, 2>* s4, ControlledSystem<3, 2>* s3) {
                bool closed = op == 0;
                Eigen::VectorXd want, got;
                if (s4)
                {
                    StateVector<4> x = pt<4>(1), g;
                    g.setConstant(99);
                    if (closed)
                        u = k == -1 ? ControlVector<2>(ControlVector<2>::Zero()) : Fb<2, 2>::law(k, x.head<2>(), t);
                    Eigen::Vector4d w;
                    w << Plant::rhs(p, x.head<2>(), t, ControlVector<2>(u + x.tail<2>())), 0, 0;
                    if (closed)
                        s4->computeDynamics(x, t, g);
                    else
                        s4->computeControlledDynamics(x, t, u, g);
                    want = w, got = g;
                }
                else
                {
                    StateVector<3> x = pt<3>(1), g;
                    g.setConstant(99);
                    if (closed)
                        u = k == -1 ? ControlVector<2>(ControlVector<2>::Zero()) : Fb<2, 2>::law(k, x.head<2>(), t);
                    if (closed)
                        s3->computeDynamics(x, t, g);
                    else
                        s3->computeControlledDynamics(x, t, u, g);
                    want = Dist::rhs(x, t, u), got = g;
                }
                c.eqM(got, want, closed ? "closed-loop derivative of the augmented state" : "derivative of the augmented state");
            };
            if (op == 5)  // continue on a clone
            {
                if (input)
                    id.reset(id->clone());
                else
                    ds.reset(ds->clone());
                ctrl.reset();
                plant.reset();
            }
            else if (op == 0 && k == -1 && !bare)
                c.throws([&] { go(id.get(), ds.get()); }, "missing nominal controller accepted");
            else
                go(id.get(), ds.get());
        }
        else if (op == 2)
        {
            k = 2;
            ctrl = std::make_shared<Fb<2, 2>>(k);
            bare = false;
            if (input)
                id->setController(ctrl);
            else
                ds->setController(ctrl);
        }
        else if (op == 3)  // the nominal controller is shared until cloned
        {
            if (!ctrl)
                c.prune();
            ctrl->k = k = 7;
        }
        else if (input)  // plant parameter: shared until cloned
        {
            if (!plant)
                c.prune();
            plant->p = p = -3;
        }
        else
            c.prune();
    }
    c.state(c.hist);
}
MC_SUITE(disturbed_controller, "controller of the augmented state: values, derivatives, replacement, clones, absence")
{
    mc::Quiet quiet;
    typedef ct::optcon::DisturbedSystemController<2, 1, 2> DC;
    auto a = std::make_shared<Fb<2, 2>>(0.5), b = std::make_shared<Fb<2, 2>>(3);
    std::shared_ptr<DC> s = c.flip() ? std::make_shared<DC>(a) : std::make_shared<DC>();
    double k = -1;
    {
        // was a controller given?
        ControlVector<2> u;
        bool threw = false;
        try
        {
            s->computeControl(pt<3>(0), 0.0, u);
        }
        catch (std::runtime_error&)
        {
            threw = true;
        }
        if (!threw)
            k = 0.5;
    }
    for (int d = 0; d < 4; d++)
    {
        switch (c.choose(4))
        {
            case 0: s->setController(a), k = a->k; break;
            case 1: s->setController(b), k = b->k; break;
            case 2: s->setController(nullptr), k = -1; break;
            default: s.reset(s->clone()); break;
        }
        c.step();
        StateVector<3> x = pt<3>(c.choose(2));
        double t = c.pick<double>({0.0, 1.5});
        ControlVector<2> u;
        u.setConstant(99);
        if (k == -1)
        {
            c.throws([&] { s->computeControl(x, t, u); }, "control without nominal controller");
            c.throws([&] { s->getDerivativeU0(x, t); }, "dU0 without nominal controller");
            c.throws([&] { s->getDerivativeUf(x, t); }, "dUf without nominal controller");
        }
        else
        {
            s->computeControl(x, t, u);
            c.eqM(u, Fb<2, 2>::law(k, x.head<2>(), t), "control");
            c.eq(s->getDerivativeU0(x, t)(1, 0), k + 10 * x(0) + 100 * t, "dU0");
            c.eq(s->getDerivativeUf(x, t)(0, 1), k - 10 * x(1) - 100 * t, "dUf");
        }
    }
    c.state(c.hist);
}

// ---- process and measurement models of the estimators
MC_SUITE(process_model, "estimator process model: 2 integrators, 3 steps, 5 times on the grid, all sequences of 2 (quick) / 3 (thorough) of dynamics / state derivative / noise derivative with 2 states x 2 inputs")
{
    auto plant = std::make_shared<Plant>(c.flip() ? std::make_shared<Fb<2, 2>>(9) : nullptr);
    auto linPlant = std::make_shared<SystemLinearizer<2, 2>>(std::make_shared<Plant>());
    double dt = c.pick<double>({0.1, 0.25, 0.3});
    typedef SensitivityApproximation<2, 2, 1, 1> SA;
    auto sens = std::make_shared<SA>(c.pick<double>({0.1, 1.0}), linPlant, ct::optcon::NLOptConSettings::APPROXIMATION::FORWARD_EULER);
    StateMatrix<2> dFdv;
    dFdv << 1, 2, 3, 4;
    bool rk = c.flip();
    typedef ct::optcon::CTSystemModel<2, 2> M;
    M m = rk ? M(plant, sens, dFdv, IntegrationType::RK4) : M(plant, sens, dFdv);
    for (int d = 0; d < (c.thorough ? 3 : 2); d++)
    {
        int op = c.choose(3);
        StateVector<2> x = pt<2>(c.choose(2));
        ControlVector<2> u;
        u << c.pick<double>({-1.5, 2}), 0.75;
        double t = c.choose(5) * dt;
        c.step();
        if (op == 0)
        {
            StateVector<2> w = x;
            auto f = [&](const StateVector<2>& y, double s) { return Plant::rhs(1, y, s, u); };
            if (!rk)
                w += dt * f(x, t);
            else
            {
                StateVector<2> k1 = f(x, t), k2 = f(StateVector<2>(x + dt / 2 * k1), t + dt / 2), k3 = f(StateVector<2>(x + dt / 2 * k2), t + dt / 2),
                               k4 = f(StateVector<2>(x + dt * k3), t + dt);
                w += dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4);
            }
            c.eqM(m.computeDynamics(x, u, dt, t), w, "predicted state");
        }
        else if (op == 1)
        {
            StateMatrix<2> A;
            A << 0, 1, u(1), 0;
            c.eqM(m.computeDerivativeState(x, u, dt, t), StateMatrix<2>(StateMatrix<2>::Identity() + dt * A), "state derivative", 1e-6);
        }
        else
            c.eqM(m.computeDerivativeNoise(x, u, dt, t), dFdv, "noise derivative", 0);
    }
    c.state(c.hist);
}
// time-varying linear process: the state derivative is taken at the time given
MC_SUITE(process_model_time, "time-varying process, steps 0.1, 0.25, 0.3, times on 12 grid points: derivative taken at the time given")
{
    struct TV : public LinearSystem<2, 2>
    {
        StateMatrix<2> A;
        StateControlMatrix<2, 2> B;
        TV* clone() const override { return new TV(*this); }
        const StateMatrix<2>& getDerivativeState(const StateVector<2>& x, const ControlVector<2>& u, const double t) override
        {
            A << t, 1, -1, 2 * t + x(0);
            return A;
        }
        const StateControlMatrix<2, 2>& getDerivativeControl(const StateVector<2>&, const ControlVector<2>&, const double) override
        {
            B.setIdentity();
            return B;
        }
    };
    double dt = c.pick<double>({0.1, 0.25, 0.3});
    int n = c.choose(12);
    auto sys = std::make_shared<TV>();
    auto sens = std::make_shared<SensitivityApproximation<2, 2, 1, 1>>(0.05, sys, ct::optcon::NLOptConSettings::APPROXIMATION::FORWARD_EULER);
    ct::optcon::CTSystemModel<2, 2> m(sys, sens, StateMatrix<2>::Identity());
    StateVector<2> x = pt<2>(c.choose(2));
    StateMatrix<2> A;
    double t = n * dt;
    A << t, 1, -1, 2 * t + x(0);
    c.eqM(m.computeDerivativeState(x, ControlVector<2>::Zero(), dt, t), StateMatrix<2>(StateMatrix<2>::Identity() + dt * A), "state derivative at the time given");
    StateVector<2> f = x + dt * A * x;
    c.eqM(m.computeDynamics(x, ControlVector<2>::Zero(), dt, t), f, "prediction at the time given");
    c.step(2);
    c.state(c.hist);
}
template <int O, int S>
static void meas(mc::Ctx& c)
{
    typedef ct::optcon::LTIMeasurementModel<O, S> M;
    OutputStateMatrix<O, S> C = OutputStateMatrix<O, S>::Identity();
    OutputMatrix<O> W = OutputMatrix<O>::Zero();
    std::unique_ptr<M> m;
    if (c.flip())
        m.reset(new M());
    else
    {
        for (int i = 0; i < O * S; i++)
            C(i / S, i % S) = c.pick<double>({0, 1.5});
        for (int i = 0; i < O * O; i++)
            W(i / O, i % O) = i + 2;
        m.reset(new M(C, W));
    }
    StateVector<S> x = pt<S>(c.choose(3));
    double t = c.pick<double>({0, 1.5});
    c.eqM(m->computeMeasurement(x, t), Eigen::VectorXd(C * x), "measurement");
    c.eqM(m->computeDerivativeState(x, t), C, "measurement Jacobian", 0);
    c.eqM(m->computeDerivativeNoise(x, t), W, "noise Jacobian", 0);
    c.step(3);
    c.state(c.hist);
}
MC_SUITE(measurement_1x2, "1 output, 2 states: all output maps") { meas<1, 2>(c); }
MC_SUITE(measurement_2x3, "2 outputs, 3 states: all output maps") { meas<2, 3>(c); }
MC_SUITE(measurement_2x2, "2 outputs, 2 states: all output maps") { meas<2, 2>(c); }

MC_SUITE(missing_system, "linearisers and process models without a system are refused")
{
    switch (c.choose(4))
    {
        case 0: c.throws([] { SystemLinearizer<2, 1> l(nullptr); }, "continuous lineariser without system"); break;
        case 1: c.throws([] { DiscreteSystemLinearizer<2, 1> l(nullptr); }, "discrete lineariser without system"); break;
        case 2: c.throws([] { SystemLinearizer<2, 1> l(nullptr, false); }, "continuous lineariser without system"); break;
        default:
            c.throws([] { ct::optcon::CTSystemModel<2, 2> m(nullptr, nullptr, StateMatrix<2>::Identity()); }, "process model without system");
    }
    c.step();
    c.state(c.hist);
}
