// P12: linear-quadratic problem bookkeeping
// MC_LIBS: -lipopt -llapack -lblas
#include <ct/optcon/optcon.h>
#include "mc.h"
#include "mc_file.h"
using namespace ct::optcon;
using namespace ct::core;

static const int NX = 3, NU = 2;
using LQ = LQOCProblem<NX, NU>;
using VX = Eigen::Matrix<double, NX, 1>;
using VU = Eigen::Matrix<double, NU, 1>;
using MX = Eigen::MatrixXd;

struct Box
{
    bool known = false;
    std::vector<int> I;
    std::vector<double> lb, ub;
};
struct Gen
{
    bool known = false;
    MX lb, ub, C, D;
};
// one stage of the reference
struct Stage
{
    bool data = false;  // data known
    MX A, B, b, Q, qv, R, rv, P;
    double q = 0;
    Box u, x;
    Gen g;
};
struct Model
{
    int K = 0;
    std::vector<Stage> s;  // K+1
    void change(int N)
    {
        K = N;
        s.assign(N + 1, Stage());  // contents after a size change are unspecified until set
    }
    void zero(int ng)
    {
        for (int i = 0; i <= K; i++)
        {
            Stage& t = s[i];
            t.data = true;
            t.A = t.Q = MX::Zero(NX, NX);
            t.B = MX::Zero(NX, NU);
            t.b = t.qv = MX::Zero(NX, 1);
            t.R = MX::Zero(NU, NU);
            t.rv = MX::Zero(NU, 1);
            t.P = MX::Zero(NU, NX);
            t.q = 0;
            t.u = Box();
            t.x = Box();
            t.u.known = t.x.known = true;
            t.g.known = true;
            t.g.lb = t.g.ub = MX::Zero(ng, 1);
            t.g.C = MX::Zero(ng, NX);
            t.g.D = MX::Zero(ng, NU);
        }
    }
};

static void cmp(mc::Ctx& c, LQ& p, const Model& m)
{
    int K = m.K;
    c.eqI(p.getNumberOfStages(), K, "getNumberOfStages");
    c.check((int)p.A_.size() == K && (int)p.B_.size() == K && (int)p.P_.size() == K && (int)p.R_.size() == K &&
                (int)p.rv_.size() == K && (int)p.u_lb_.size() == K && (int)p.u_ub_.size() == K && (int)p.u_I_.size() == K &&
                (int)p.nbu_.size() == K,
        "per-control arrays have one entry per stage");
    c.check((int)p.b_.size() == K + 1 && (int)p.Q_.size() == K + 1 && (int)p.qv_.size() == K + 1 && (int)p.q_.size() == K + 1 &&
                (int)p.x_lb_.size() == K + 1 && (int)p.x_ub_.size() == K + 1 && (int)p.x_I_.size() == K + 1 &&
                (int)p.nbx_.size() == K + 1 && (int)p.ng_.size() == K + 1 && (int)p.d_lb_.size() == K + 1 &&
                (int)p.d_ub_.size() == K + 1 && (int)p.C_.size() == K + 1 && (int)p.D_.size() == K + 1,
        "per-state arrays have one entry per node");
    bool allU = true, allX = true, allG = true;
    bool anyU = false, anyX = false, anyG = false;
    for (int i = 0; i <= K; i++)
    {
        const Stage& t = m.s[i];
        std::string at = " at stage " + std::to_string(i);
        if (t.data)
        {
            c.eqM(p.Q_[i], t.Q, "Q" + at);
            c.eqM(p.qv_[i], t.qv, "qv" + at);
            c.eq(p.q_[i], t.q, "q" + at);
            if (i < K)
            {
                c.eqM(p.A_[i], t.A, "A" + at);
                c.eqM(p.B_[i], t.B, "B" + at);
                c.eqM(p.b_[i], t.b, "b" + at);
                c.eqM(p.R_[i], t.R, "R" + at);
                c.eqM(p.rv_[i], t.rv, "rv" + at);
                c.eqM(p.P_[i], t.P, "P" + at);
            }
        }
        if (i < K)
        {
            allU &= t.u.known;
            if (t.u.known)
            {
                anyU |= !t.u.I.empty();
                c.eqI(p.nbu_[i], (int)t.u.I.size(), "number of input bounds" + at);
                for (size_t k = 0; k < t.u.I.size(); k++)
                {
                    c.eqI(p.u_I_[i](k), t.u.I[k], "input bound index" + at);
                    c.eq(p.u_lb_[i](k), t.u.lb[k], "input lower bound" + at);
                    c.eq(p.u_ub_[i](k), t.u.ub[k], "input upper bound" + at);
                }
            }
        }
        allX &= t.x.known;
        if (t.x.known)
        {
            anyX |= !t.x.I.empty();
            c.eqI(p.nbx_[i], (int)t.x.I.size(), "number of state bounds" + at);
            for (size_t k = 0; k < t.x.I.size(); k++)
            {
                c.eqI(p.x_I_[i](k), t.x.I[k], "state bound index" + at);
                c.eq(p.x_lb_[i](k), t.x.lb[k], "state lower bound" + at);
                c.eq(p.x_ub_[i](k), t.x.ub[k], "state upper bound" + at);
            }
        }
        allG &= t.g.known;
        if (t.g.known)
        {
            anyG |= t.g.lb.rows() > 0;
            c.eqI(p.ng_[i], (int)t.g.lb.rows(), "number of general constraints" + at);
            c.check(p.C_[i].rows() == t.g.C.rows() && p.D_[i].rows() == t.g.D.rows() && p.d_lb_[i].rows() == t.g.lb.rows() &&
                        p.d_ub_[i].rows() == t.g.ub.rows() && p.C_[i].cols() == NX && p.D_[i].cols() == NU,
                "general constraint dimensions" + at);
            if (t.g.lb.rows())
            {
                c.eqM(p.C_[i], t.g.C, "C" + at);
                c.eqM(p.D_[i], t.g.D, "D" + at);
                c.eqM(p.d_lb_[i], t.g.lb, "d_lb" + at);
                c.eqM(p.d_ub_[i], t.g.ub, "d_ub" + at);
            }
        }
    }
    if (allU || anyU)
        c.eqI(p.isInputBoxConstrained(), anyU, "isInputBoxConstrained");
    if (allX || anyX)
        c.eqI(p.isStateBoxConstrained(), anyX, "isStateBoxConstrained");
    if (allG || anyG)
        c.eqI(p.isGeneralConstrained(), anyG, "isGeneralConstrained");
    if ((allU && allX && allG) || anyU || anyX || anyG)
        c.eqI(p.isConstrained(), anyU || anyX || anyG, "isConstrained");
}

struct BoxArg
{
    std::vector<int> I;
    std::vector<double> lb, ub;
    int n;
    bool ok;
    const char* name;
};
static BoxArg boxArg(int k, int dim)
{
    switch (k)
    {
        case 0: return {{0}, {-1}, {2}, 1, true, "one"};
        case 1: return {{0, dim - 1}, {-1, -4}, {2, 5}, 2, true, "first+last"};
        case 2: return {{}, {}, {}, 0, true, "none"};
        case 3: return {{dim - 1}, {-7}, {-6}, 1, true, "last"};
        case 4: return {{dim}, {-1}, {1}, 1, false, "index too large"};
        case 5: return {{dim, 0}, {-1, -1}, {1, 1}, 2, false, "unsorted, index too large"};
        case 6: return {{-1}, {-1}, {1}, 1, false, "negative index"};
        case 7: return {{0}, {-1, -2}, {1}, 1, false, "bounds of different size"};
        case 8: return {{0}, {-1, -2}, {1, 2}, 1, false, "more bounds than constraints"};
        case 9: return {{0, 1}, {-1}, {1}, 1, false, "pattern too long"};
        default: return {{0, 0, 0, 0}, {-1, -1, -1, -1}, {1, 1, 1, 1}, 4, false, "more constraints than dimensions"};
    }
}
static MX col(const std::vector<double>& v)
{
    MX m(v.size(), 1);
    for (size_t i = 0; i < v.size(); i++)
        m(i, 0) = v[i];
    return m;
}
static Eigen::VectorXi icol(const std::vector<int>& v)
{
    Eigen::VectorXi m(v.size());
    for (size_t i = 0; i < v.size(); i++)
        m(i) = v[i];
    return m;
}
static void setBox(Box& b, const BoxArg& a, const MX& nom)
{
    b = Box();
    b.known = true;
    b.I = a.I;
    for (size_t k = 0; k < a.I.size(); k++)
    {
        b.lb.push_back(a.lb[k] - nom(a.I[k]));
        b.ub.push_back(a.ub[k] - nom(a.I[k]));
    }
}
// distinct nominal value per stage and entry
static StateVector<NX> xnom(int stage, int salt)
{
    StateVector<NX> x;
    for (int i = 0; i < NX; i++)
        x(i) = 0.25 * (stage + 1) + 10 * i + 100 * salt;
    return x;
}
static ControlVector<NU> unom(int stage, int salt)
{
    ControlVector<NU> u;
    for (int i = 0; i < NU; i++)
        u(i) = -0.5 * (stage + 1) + 3 * i + 50 * salt;
    return u;
}

class DLin : public DiscreteLinearSystem<NX, NU>
{
public:
    int salt;
    DLin(int s) : salt(s) {}
    DLin* clone() const override { return new DLin(*this); }
    void getAandB(const StateVector<NX>& x, const ControlVector<NU>& u, const StateVector<NX>& xn, const int n, size_t, StateMatrix<NX>& A,
        StateControlMatrix<NX, NU>& B) override
    {
        for (int i = 0; i < NX; i++)
            for (int j = 0; j < NX; j++)
                A(i, j) = 1 + i + 3 * j + salt;
        for (int i = 0; i < NX; i++)
            for (int j = 0; j < NU; j++)
                B(i, j) = -2 + i * 2 - j + salt;
    }
};

static void tiData(mc::Ctx& c, LQ& p, Model& m, int salt, double dt)
{
    DLin sys(salt);
    // quadratic cost with cross terms: intermediate 0.5-weighted quadratic around (x0,u0), terminal quadratic
    CostFunctionAnalytical<NX, NU> cost;
    StateMatrix<NX> Q, Qf;
    ControlMatrix<NU> R;
    FeedbackMatrix<NX, NU> Pm;
    Q << 2, 0.5, 0, 0.5, 3, 0.25, 0, 0.25, 4;
    Q *= (salt + 1);
    Qf << 7, 1, 0, 1, 8, 2, 0, 2, 9;
    R << 5, 1, 1, 6;
    Pm << 1, 2, 3, 4, 5, 6;
    StateVector<NX> xr, xf;
    xr << 1, -2, 3;
    xf << -1, 4, 2;
    ControlVector<NU> ur;
    ur << 0.5, -1.5;
    auto tq = std::make_shared<TermQuadratic<NX, NU>>(Q, R, xr, ur);
    auto tm = std::make_shared<TermMixed<NX, NU>>(Pm, xr, ur);
    auto tf = std::make_shared<TermQuadratic<NX, NU>>(Qf, R, xf, ur);
    cost.addIntermediateTerm(tq);
    cost.addIntermediateTerm(tm);
    cost.addFinalTerm(tf);
    StateVector<NX> off;
    off << 0.1, 0.2, 0.3 + salt;
    p.setFromTimeInvariantLinearQuadraticProblem(sys, cost, off, dt);
    m.zero(0);
    StateMatrix<NX> A;
    StateControlMatrix<NX, NU> B;
    sys.getAandB(xr, ur, xr, 0, 1, A, B);
    // L = (x-xr)'Q(x-xr) + (u-ur)'R(u-ur) + (u-ur)'P(x-xr), derivatives at the origin
    MX dx = -xr, du = -ur, dxf = -xf;
    for (int i = 0; i <= m.K; i++)
    {
        Stage& t = m.s[i];
        t.A = A;
        t.B = B;
        t.b = off;
        t.Q = 2 * Q * dt;
        t.R = 2 * R * dt;
        t.P = Pm * dt;
        t.qv = (2 * Q * dx + Pm.transpose() * du) * dt;
        t.rv = (2 * R * du + Pm * dx) * dt;
    }
    m.s[m.K].Q = 2 * Qf;
    m.s[m.K].qv = 2 * Qf * dxf;
}

static void op(mc::Ctx& c, LQ& p, Model& m, int kind, int nBad, int salt)
{
    mc::Quiet q;
    switch (kind)
    {
        case 0:
        {
            int N = 1 + c.choose(3);
            c.log() << "changeNumStages(" << N << ") ";
            p.changeNumStages(N);
            if (N != m.K)
                m.change(N);
            break;
        }
        case 1:
        {
            int g = c.pick<int>({0, 2});
            c.log() << "setZero(" << g << ") ";
            p.setZero(g);
            m.zero(g);
            break;
        }
        case 2:  // single stage input or state box
        case 3:
        {
            bool u = kind == 2;
            int idx = c.pick<int>({0, m.K - 1, m.K, -1});
            int dim = u ? NU : NX;
            BoxArg a = boxArg(c.choose(nBad), dim);
            c.log() << (u ? "inputBox(" : "stateBox(") << idx << "," << a.name << ") ";
            auto f = [&]() {
                if (u)
                    p.setInputBoxConstraint(idx, a.n, col(a.lb), col(a.ub), icol(a.I), unom(idx, salt));
                else
                    p.setIntermediateStateBoxConstraint(idx, a.n, col(a.lb), col(a.ub), icol(a.I), xnom(idx, salt));
            };
            bool ok = a.ok && idx >= 0 && idx < m.K;
            if (ok)
            {
                f();
                if (u)
                    setBox(m.s[idx].u, a, unom(idx, salt));
                else
                    setBox(m.s[idx].x, a, xnom(idx, salt));
            }
            else
                c.throws(f, "box constraint with bad arguments");
            break;
        }
        case 4:  // all stages
        case 5:
        {
            bool u = kind == 4;
            BoxArg a = boxArg(c.choose(nBad), u ? NU : NX);
            c.log() << (u ? "inputBoxes(" : "stateBoxes(") << a.name << ") ";
            ControlVectorArray<NU> un;
            StateVectorArray<NX> xn;
            for (int i = 0; i <= m.K; i++)
            {
                if (i < m.K)
                    un.push_back(unom(i, salt));
                xn.push_back(xnom(i, salt));
            }
            auto f = [&]() {
                if (u)
                    p.setInputBoxConstraints(a.n, col(a.lb), col(a.ub), icol(a.I), un);
                else
                    p.setIntermediateStateBoxConstraints(a.n, col(a.lb), col(a.ub), icol(a.I), xn);
            };
            if (a.ok)
            {
                f();
                for (int i = 0; i < m.K; i++)
                    if (u)
                        setBox(m.s[i].u, a, unom(i, salt));
                    else
                        setBox(m.s[i].x, a, xnom(i, salt));
            }
            else
                c.throws(f, "box constraints with bad arguments");
            break;
        }
        case 6:
        {
            BoxArg a = boxArg(c.choose(nBad), NX);
            c.log() << "terminalBox(" << a.name << ") ";
            auto f = [&]() { p.setTerminalBoxConstraints(a.n, col(a.lb), col(a.ub), icol(a.I), xnom(m.K, salt)); };
            if (a.ok)
            {
                f();
                setBox(m.s[m.K].x, a, xnom(m.K, salt));
            }
            else
                c.throws(f, "terminal box with bad arguments");
            break;
        }
        case 7:
        {
            int v = c.choose(nBad > 4 ? 6 : 3);
            int n = v == 0 ? 1 : v == 1 ? 2 : v == 2 ? 0 : 2;
            MX lb(n, 1), ub(n, 1), C(n, NX), D(n, NU);
            for (int i = 0; i < n; i++)
            {
                lb(i) = -1 - i - salt;
                ub(i) = 2 + i + salt;
                for (int j = 0; j < NX; j++)
                    C(i, j) = 1 + i * NX + j + salt;
                for (int j = 0; j < NU; j++)
                    D(i, j) = -1 - i * NU - j - salt;
            }
            if (v == 3)
                ub = ub.topRows(1).eval();
            if (v == 4)
                C = C.topRows(1).eval();
            if (v == 5)
                D = D.leftCols(1).eval();
            c.log() << "general(" << v << ") ";
            auto f = [&]() { p.setGeneralConstraints(lb, ub, C, D); };
            if (v < 3)
            {
                f();
                for (auto& s : m.s)
                {
                    s.g.known = true;
                    s.g.lb = lb;
                    s.g.ub = ub;
                    s.g.C = C;
                    s.g.D = D;
                }
            }
            else
                c.throws(f, "general constraints with inconsistent sizes");
            break;
        }
        case 8:
        {
            double dt = c.pick<double>({1.0, 0.25});
            c.log() << "setFromTimeInvariant(" << dt << ") ";
            tiData(c, p, m, salt, dt);
            break;
        }
        default:  // write data directly, as the solvers do
        {
            int i = c.pick<int>({0, m.K});
            c.log() << "write(" << i << ") ";
            Stage& t = m.s[i];
            if (!t.data)
                c.prune();
            p.Q_[i].setConstant(3 + salt);
            t.Q.setConstant(3 + salt);
            p.qv_[i].setConstant(4 + salt);
            t.qv.setConstant(4 + salt);
            p.q_[i] = t.q = 2 + salt;
            if (i < m.K)
            {
                p.A_[i].setConstant(5 + salt);
                t.A.setConstant(5 + salt);
                p.B_[i].setConstant(6 + salt);
                t.B.setConstant(6 + salt);
                p.b_[i].setConstant(7 + salt);
                t.b.setConstant(7 + salt);
                p.R_[i].setConstant(8 + salt);
                t.R.setConstant(8 + salt);
                p.rv_[i].setConstant(9 + salt);
                t.rv.setConstant(9 + salt);
                p.P_[i].setConstant(10 + salt);
                t.P.setConstant(10 + salt);
            }
        }
    }
}

static uint64_t hash(const Model& m)
{
    uint64_t h = m.K;
    for (auto& s : m.s)
    {
        h = mc::mix(h, s.data ? 1 + mc::hd(s.Q(0, 0)) + mc::hd(s.qv(0, 0)) : 0);
        for (const Box* b : {&s.u, &s.x})
        {
            h = mc::mix(h, b->known);
            for (size_t k = 0; k < b->I.size(); k++)
                h = mc::mix(h, mc::hd(b->lb[k]) + b->I[k]);
        }
        h = mc::mix(h, s.g.known ? s.g.lb.rows() + (s.g.lb.size() ? mc::hd(s.g.lb(0)) : 0) : 99);
    }
    return h;
}

static void run(mc::Ctx& c, int depth, int nArgs, int nGood)
{
    int K0 = 1 + c.choose(3);
    LQ p(K0);
    Model m;
    m.change(K0);
    for (auto& s : m.s)  // a new problem is unconstrained
    {
        s.u.known = s.x.known = s.g.known = true;
        s.g.C = MX(0, NX);
        s.g.D = MX(0, NU);
        s.g.lb = s.g.ub = MX(0, 1);
    }
    c.check(!p.isConstrained(), "new problem is unconstrained");
    for (auto& s : m.s)
        s.g.known = false;
    p.setZero();
    m.zero(0);
    cmp(c, p, m);
    for (int k = 0; k < depth; k++)
    {
        op(c, p, m, c.choose(10), k + 1 == depth ? nArgs : nGood, k);
        c.step();
        cmp(c, p, m);
        c.state(hash(m));
    }
}
MC_SUITE(call_sequences, "problems of 1..3 stages, all sequences of 3 calls (10 call kinds), all 11 valid/invalid argument patterns in the last call, 2 patterns before")
{
    run(c, 3, 11, 2);
}
MC_SUITE(argument_pairs, "problems of 1..3 stages, all pairs of calls with all 11 valid/invalid argument patterns")
{
    run(c, 2, 11, 11);
}
MC_SUITE_THOROUGH(call_sequences_deep, "problems of 1..3 stages, all sequences of 4 calls, 4 argument patterns, all 11 in the last call")
{
    run(c, 4, 11, 2);
}
