// P13: unconstrained LQ solver (Riccati) against dense KKT solves
// MC_LIBS: -lipopt -llapack -lblas
#include <ct/optcon/optcon.h>
#include "mc.h"
#include "mc_file.h"
#include "lq_ref.h"
using namespace ct::optcon;
using MX = Eigen::MatrixXd;
using VX = Eigen::VectorXd;

static MX mat(int r, int c, std::initializer_list<double> v)
{
    MX m(r, c);
    auto it = v.begin();
    for (int i = 0; i < r; i++)
        for (int j = 0; j < c; j++)
            m(i, j) = *it++;
    return m;
}
static std::vector<MX> tabA(int n)
{
    if (n == 1)
        return {mat(1, 1, {1}), mat(1, 1, {-0.5}), mat(1, 1, {2})};
    return {mat(2, 2, {1, 1, 0, 1}), mat(2, 2, {0, 1, -1, 0.5}), mat(2, 2, {2, 0.25, -0.5, 0.5}), mat(2, 2, {1, 0, 0, 1})};
}
static std::vector<MX> tabB(int n, int m)
{
    if (n == 1 && m == 2)
        return {mat(1, 2, {1, -1}), mat(1, 2, {0, 2}), mat(1, 2, {-2, 0.5})};
    if (n == 1)
        return {mat(1, 1, {1}), mat(1, 1, {0}), mat(1, 1, {-2})};
    if (m == 1)
        return {mat(2, 1, {0, 1}), mat(2, 1, {1, -1}), mat(2, 1, {0, 0})};
    return {mat(2, 2, {1, 0, 0, 1}), mat(2, 2, {0, 1, 1, 2}), mat(2, 2, {1, 1, 1, 1})};
}
static std::vector<MX> tabQ(int n)
{
    if (n == 1)
        return {mat(1, 1, {1}), mat(1, 1, {0}), mat(1, 1, {3})};
    return {mat(2, 2, {1, 0, 0, 1}), mat(2, 2, {2, 1, 1, 3}), mat(2, 2, {0, 0, 0, 0}), mat(2, 2, {4, 0, 0, 0})};
}
static std::vector<MX> tabR(int m)
{
    if (m == 1)
        return {mat(1, 1, {2}), mat(1, 1, {0.5})};
    return {mat(2, 2, {2, 0.5, 0.5, 1}), mat(2, 2, {0.5, 0, 0, 3})};
}
// cross weights small enough to keep the stage cost convex with Q >= I, R >= 0.5 I; 0 is always admissible
static std::vector<MX> tabP(int n, int m)
{
    if (n == 1 && m == 2)
        return {mat(2, 1, {0, 0}), mat(2, 1, {0.25, -0.125})};
    if (n == 1)
        return {mat(1, 1, {0}), mat(1, 1, {0.5})};
    if (m == 1)
        return {mat(1, 2, {0, 0}), mat(1, 2, {0.25, -0.125})};
    return {mat(2, 2, {0, 0, 0, 0}), mat(2, 2, {0.25, 0, 0.125, -0.25})};
}
static MX vec(int n, int k, double s)
{
    MX v = MX::Zero(n, 1);
    for (int i = 0; i < n; i++)
        v(i) = k == 0 ? 0 : s * (k * (i + 1) - 0.5 * i * i * k - 2 * i);
    return v;
}
// composite stage data, all members non-trivial in some kind
static LqStage stageKind(int n, int m, int k)
{
    auto A = tabA(n), B = tabB(n, m), Q = tabQ(n), R = tabR(m), P = tabP(n, m);
    LqStage t;
    switch (k)
    {
        case 0: t = {A[0], B[0], vec(n, 0, 1), Q[0], vec(n, 0, 1), R[0], vec(m, 0, 1), P[0]}; break;
        case 1: t = {A[1], B[1], vec(n, 1, 1), Q[1 % Q.size()] + MX::Identity(n, n), vec(n, 1, -1), R[1], vec(m, 1, 1), P[1]}; break;
        case 2: t = {A[2], B[0], vec(n, 2, -0.5), Q[2], vec(n, 0, 1), R[0], vec(m, 2, -1), P[0]}; break;
        case 3: t = {A[0], B[2], vec(n, 1, 1), Q[0], vec(n, 2, 1), R[0], vec(m, 1, -0.5), P[1]}; break;
        case 4: t = {A[1], B[1], vec(n, 0, 1), Q[0], vec(n, 1, 1), R[1], vec(m, 1, 2), P[0]}; break;
        default: t = {A[2], B[1], vec(n, 1, 2), Q[0] * 2, vec(n, 1, 0.5), R[0], vec(m, 0, 1), P[1]}; break;
    }
    return t;
}

template <int N, int M>
struct H
{
    using P = LQOCProblem<N, M>;
    using S = GNRiccatiSolver<N, M>;
    static void store(const LqRef& r, P& p)
    {
        int K = r.s.size();
        for (int k = 0; k < K; k++)
            storeStage(r, p, k);
        p.Q_[K] = r.QN;
        p.qv_[K] = r.qvN;
    }
    static void storeStage(const LqRef& r, P& p, int k)
    {
        p.A_[k] = r.s[k].A;
        p.B_[k] = r.s[k].B;
        p.b_[k] = r.s[k].b;
        p.Q_[k] = r.s[k].Q;
        p.qv_[k] = r.s[k].qv;
        p.R_[k] = r.s[k].R;
        p.rv_[k] = r.s[k].rv;
        p.P_[k] = r.s[k].P;
    }
    static std::shared_ptr<P> make(const LqRef& r)
    {
        auto p = std::make_shared<P>((int)r.s.size());
        p->setZero();
        store(r, *p);
        return p;
    }
    // solution of the solver vs dense solution (eps: fixed Hessian correction, i.e. R + eps I)
    static void compare(mc::Ctx& c, S& s, LqRef r, double eps, bool rec, double tol = 1e-7)
    {
        for (auto& t : r.s)
            t.R += eps * MX::Identity(M, M);
        int K = r.s.size();
        s.computeStatesAndControls();
        s.computeFeedbackMatrices();
        s.compute_lv();
        const auto& xs = s.getSolutionState();
        const auto& us = s.getSolutionControl();
        const auto& Ls = s.getSolutionFeedback();
        const auto& lv = s.get_lv();
        c.check((int)xs.size() == K + 1 && (int)us.size() == K && (int)Ls.size() == K && (int)lv.size() == K, "solution sizes");
        std::vector<VX> x, u;
        r.solve(0, VX::Zero(N), x, u);
        for (int k = 0; k <= K; k++)
            c.eqM(xs[k], x[k], "state update " + std::to_string(k), tol);
        for (int k = 0; k < K; k++)
        {
            c.eqM(us[k], u[k], "control update " + std::to_string(k), tol);
            MX L;
            VX l;
            r.law(k, L, l);
            c.eqM(Ls[k], L, "feedback " + std::to_string(k), tol);
            c.eqM(lv[k], l, "feedforward " + std::to_string(k), tol);
        }
        if (rec)
        {
            // smallest eigenvalue of the control Hessians along the exact cost-to-go
            double e = std::numeric_limits<double>::infinity();
            MX S_ = r.QN;
            for (int k = K - 1; k >= 0; k--)
            {
                const LqStage& t = r.s[k];
                MX Hm = t.R + t.B.transpose() * S_ * t.B, G = t.P + t.B.transpose() * S_ * t.A;
                e = std::min(e, Eigen::SelfAdjointEigenSolver<MX>(Hm).eigenvalues().minCoeff());
                S_ = (t.Q + t.A.transpose() * S_ * t.A - G.transpose() * Hm.inverse() * G).eval();
            }
            c.eq(s.getSmallestEigenvalue(), e, "smallest eigenvalue", 1e-6);
        }
    }
    struct Cfg
    {
        bool fixed;
        double eps;
        bool rec;
        double add() const { return fixed && eps > 1e-10 ? eps : 0; }
    };
    static Cfg cfg(int i)
    {
        switch (i)
        {
            case 0: return {false, 1e-5, false};
            case 1: return {false, 0.25, true};
            case 2: return {true, 0, false};
            default: return {true, 0.125, true};
        }
    }
    static void apply(S& s, const Cfg& f)
    {
        NLOptConSettings set;
        set.fixedHessianCorrection = f.fixed;
        set.epsilon = f.eps;
        set.recordSmallestEigenvalue = f.rec;
        s.configure(set);
    }
    // data grid: all single-stage data combinations, repeated over K stages (time-invariant)
    static void grid(mc::Ctx& c, int maxK)
    {
        LqRef r;
        LqStage t;
        t.A = c.pick(tabA(N));
        t.B = c.pick(tabB(N, M));
        int qi = c.choose(tabQ(N).size());
        t.Q = tabQ(N)[qi];
        t.R = c.pick(tabR(M));
        t.P = qi < 2 && !(N == 1 && qi == 1) ? c.pick(tabP(N, M)) : tabP(N, M)[0];
        int aff = c.choose(3);
        t.b = vec(N, aff, 1);
        t.qv = vec(N, aff == 2 ? 1 : 0, -1);
        t.rv = vec(M, aff, 0.5);
        int K = 1 + c.choose(maxK);
        r.s.assign(K, t);
        r.QN = c.pick(tabQ(N));
        r.qvN = vec(N, aff, 0.25);
        c.log() << "grid K=" << K << " affine=" << aff;
        c.step();
        S s;
        {
            mc::Quiet q;
            apply(s, cfg(0));
            s.setProblem(make(r));
            s.solve();
            compare(c, s, r, 0, false);
        }
        c.state(c.hist);
    }
    // time-varying: every sequence of stage kinds
    static void varying(mc::Ctx& c, int maxK, int kinds)
    {
        int K = 1 + c.choose(maxK);
        LqRef r;
        c.log() << "stages";
        for (int k = 0; k < K; k++)
        {
            int q = c.choose(kinds);
            c.log() << " " << q;
            r.s.push_back(stageKind(N, M, q));
        }
        int f = c.choose(2);
        r.QN = tabQ(N)[f == 0 ? 1 : 2];
        r.qvN = vec(N, 1 - f, 2);
        Cfg g = cfg(c.choose(4));
        int how = c.choose(4);
        c.log() << " final " << f << " fixed=" << g.fixed << " eps=" << g.eps << " how=" << how;
        c.step(K);
        mc::Quiet q;
        auto p = make(r);
        std::shared_ptr<S> s;
        if (how == 0)
        {
            s.reset(new S());
            apply(*s, g);
            s->setProblem(p);
            s->solve();
        }
        else if (how == 1)
        {
            s.reset(new S(p));
            apply(*s, g);
            s->solve();
        }
        else if (how == 2)
        {
            s.reset(new S(K == 1 ? 2 : K));
            apply(*s, g);
            s->setProblem(p);
            s->initializeAndAllocate();
            s->solve();
        }
        else  // stage by stage, the first stage being changed before it is solved (real-time iteration)
        {
            s.reset(new S());
            apply(*s, g);
            s->setProblem(p);
            for (int k = K - 1; k > 0; k--)
                s->solveSingleStage(k);
            r.s[0] = stageKind(N, M, 5);
            storeStage(r, *p, 0);
            s->solveSingleStage(0);
        }
        compare(c, *s, r, g.add(), g.rec);
        c.state(c.hist);
    }
    // histories on one solver
    static void history(mc::Ctx& c, int depth)
    {
        S s;
        std::vector<LqRef> refs(3);
        std::vector<std::shared_ptr<P>> ps;
        for (int i = 0; i < 3; i++)
        {
            int K = i == 0 ? 2 : i == 1 ? 3 : 2;
            for (int k = 0; k < K; k++)
                refs[i].s.push_back(stageKind(N, M, (i * 2 + k + 1) % 6));
            refs[i].QN = tabQ(N)[i % 2];
            refs[i].qvN = vec(N, i % 2, 1);
            ps.push_back(make(refs[i]));
        }
        int cur = 0;
        Cfg g = cfg(0);
        mc::Quiet q;
        apply(s, g);
        s.setProblem(ps[0]);
        bool solved = false;
        for (int d = 0; d < depth; d++)
        {
            switch (c.choose(6))
            {
                case 0:
                {
                    cur = c.choose(3);
                    c.log() << "setProblem(" << cur << ") ";
                    s.setProblem(ps[cur]);
                    solved = false;
                    break;
                }
                case 1:
                    c.log() << "solve ";
                    s.solve();
                    solved = true;
                    break;
                case 2:
                    c.log() << "stages ";
                    for (int k = (int)refs[cur].s.size() - 1; k >= 0; k--)
                        s.solveSingleStage(k);
                    solved = true;
                    break;
                case 3:
                {
                    g = cfg(c.choose(4));
                    c.log() << "configure(" << g.fixed << "," << g.eps << ") ";
                    apply(s, g);
                    solved = false;
                    break;
                }
                case 4:  // edit the current problem in place
                {
                    int k = c.choose(refs[cur].s.size() + 1);
                    c.log() << "edit(" << k << ") ";
                    if (k == (int)refs[cur].s.size())
                        refs[cur].QN += MX::Identity(N, N), refs[cur].qvN += MX::Ones(N, 1);
                    else
                        refs[cur].s[k] = stageKind(N, M, 3);
                    store(refs[cur], *ps[cur]);
                    solved = false;
                    break;
                }
                default:  // resize the current problem, announced by setProblem
                {
                    int K = 1 + c.choose(3);
                    c.log() << "resize(" << K << ") ";
                    refs[cur].s.clear();
                    for (int k = 0; k < K; k++)
                        refs[cur].s.push_back(stageKind(N, M, (k + 4) % 6));
                    ps[cur]->changeNumStages(K);
                    ps[cur]->setZero();
                    store(refs[cur], *ps[cur]);
                    s.setProblem(ps[cur]);
                    solved = false;
                }
            }
            c.step();
            if (solved)
            {
                compare(c, s, refs[cur], g.add(), g.rec);
                compare(c, s, refs[cur], g.add(), g.rec);  // reading the solution does not change it
            }
            c.state(c.hist);
        }
    }
};
MC_SUITE(grid_1x1, "1 state, 1 control: all time-invariant data from the tables, 1..3 stages") { H<1, 1>::grid(c, 3); }
MC_SUITE(grid_2x1, "2 states, 1 control: all time-invariant data from the tables, 1..2 stages") { H<2, 1>::grid(c, 2); }
MC_SUITE(grid_2x2, "2 states, 2 controls: all time-invariant data from the tables, 1..2 stages") { H<2, 2>::grid(c, 2); }
MC_SUITE(varying_2x1, "2 states, 1 control: all sequences of 1..3 stages out of 6 kinds x 2 terminal costs x 4 regularisation settings x 4 ways to solve")
{
    H<2, 1>::varying(c, 3, 6);
}
MC_SUITE(grid_1x2, "1 state, 2 controls: all time-invariant data from the tables, 1..2 stages") { H<1, 2>::grid(c, 2); }
MC_SUITE(varying_1x2, "1 state, 2 controls: all sequences of 1..2 stages out of 6 kinds x 2 terminal costs x 4 regularisation settings x 4 ways to solve")
{
    H<1, 2>::varying(c, 2, 6);
}
MC_SUITE(varying_2x2, "2 states, 2 controls: all sequences of 1..3 stages out of 6 kinds x 2 terminal costs x 4 regularisation settings x 4 ways to solve")
{
    H<2, 2>::varying(c, c.thorough ? 4 : 3, 6);
}
MC_SUITE(histories_2x2, "2 states, 2 controls: all histories of 4 calls (set problem, solve, solve by stage, configure, edit, resize)")
{
    H<2, 2>::history(c, 4);
}
MC_SUITE_THOROUGH(histories_2x1_deep, "2 states, 1 control: all histories of 5 calls") { H<2, 1>::history(c, 5); }

MC_SUITE(refusal, "problems with one kind of constraint (input box, state box, terminal box, general) given to a solver in every way")
{
    int kind = c.choose(4), how = c.choose(2), K = 1 + c.choose(2);
    c.log() << "constraint kind " << kind << " how " << how;
    c.step();
    auto p = std::make_shared<LQOCProblem<2, 2>>(K);
    p->setZero();
    MX lb = MX::Constant(1, 1, -1), ub = MX::Constant(1, 1, 1);
    Eigen::VectorXi sp(1);
    sp << 1;
    if (kind == 0)
        p->setInputBoxConstraint(0, 1, lb, ub, sp, ct::core::ControlVector<2>::Zero());
    else if (kind == 1)
        p->setIntermediateStateBoxConstraint(0, 1, lb, ub, sp, ct::core::StateVector<2>::Zero());
    else if (kind == 2)
        p->setTerminalBoxConstraints(1, lb, ub, sp, ct::core::StateVector<2>::Zero());
    else
        p->setGeneralConstraints(lb, ub, MX::Ones(1, 2), MX::Ones(1, 2));
    GNRiccatiSolver<2, 2> s;
    if (how == 0)
        c.throws([&]() { s.setProblem(p); }, "constrained problem");
    else
    {
        c.throws([&]() { s.configureInputBoxConstraints(p); }, "input box constraints");
        c.throws([&]() { s.configureStateBoxConstraints(p); }, "state box constraints");
        c.throws([&]() { s.configureGeneralConstraints(p); }, "general constraints");
    }
}
