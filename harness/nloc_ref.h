// Reference model of the nonlinear optimal control iteration (single and multiple shooting, open and closed loop).
// Written from the algorithm's definition: dense KKT solves for the linear-quadratic subproblem, plain rollouts.
#pragma once
#include <ct/optcon/optcon.h>
#include "lq_ref.h"
namespace nloc
{
typedef Eigen::VectorXd VX;
typedef Eigen::MatrixXd MX;
typedef std::vector<VX> VA;
typedef std::vector<MX> MA;

// ---- the problem: dynamics and cost with their analytic derivatives
enum Scheme
{
    DISCRETE,      // x+ = x + 0.25 f(x,u,0.25 n), independent of the settings
    EULER_FE,      // Euler integrator, forward Euler sensitivities
    EULER_SENS2,   // Euler integrator with two substeps and integrated sensitivities
    RK4_BE,        // RK4 integrator, backward Euler sensitivities (the default settings)
};
struct Prob
{
    int nx = 2, nu = 1;
    Scheme scheme = DISCRETE;
    double dt = 0.2, nl = 1;
    int dyn = 0, cost = 0;
    VX f(const VX& x, const VX& u, double t) const
    {
        VX r(nx);
        for (int i = 0; i < nx; i++)
        {
            double s = dyn ? 1.4 : 1.0;
            r(i) = -0.3 * (i + 1) * x(i) + s * 0.6 * x((i + 1) % nx) * (1 + 0.2 * t) + nl * 0.5 * std::sin(2 * x((i + 1) % nx)) + nl * 0.2 * x(i) * u(0) + 0.15 + 0.1 * t;
            for (int j = 0; j < nu; j++)
                r(i) += bu(i, j) * u(j);
        }
        return r;
    }
    double bu(int i, int j) const { return (dyn ? 0.8 : 0.5) + 0.35 * j - 0.55 * i; }
    MX fx(const VX& x, const VX& u, double t) const
    {
        MX A = MX::Zero(nx, nx);
        for (int i = 0; i < nx; i++)
        {
            double s = dyn ? 1.4 : 1.0;
            A(i, i) += -0.3 * (i + 1) + nl * 0.2 * u(0);
            A(i, (i + 1) % nx) += s * 0.6 * (1 + 0.2 * t) + nl * std::cos(2 * x((i + 1) % nx));
        }
        return A;
    }
    MX fu(const VX& x, const VX&, double) const
    {
        MX B(nx, nu);
        for (int i = 0; i < nx; i++)
            for (int j = 0; j < nu; j++)
                B(i, j) = bu(i, j) + (j == 0 ? nl * 0.2 * x(i) : 0);
        return B;
    }
    double DD = 0.25;
    VX step(const VX& x, int n, const VX& u) const
    {
        switch (scheme)
        {
            case DISCRETE: return x + DD * f(x, u, DD * n);
            case EULER_FE: return x + dt * f(x, u, n * dt);
            case EULER_SENS2:
            {
                double h = dt / 2;
                VX y = x + h * f(x, u, n * dt);
                return y + h * f(y, u, n * dt + h);
            }
            default:
            {
                double t = n * dt;
                VX k1 = f(x, u, t), k2 = f(x + dt / 2 * k1, u, t + dt / 2), k3 = f(x + dt / 2 * k2, u, t + dt / 2), k4 = f(x + dt * k3, u, t + dt);
                return x + dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4);
            }
        }
    }
    void lin(const VX& x, const VX& u, int n, MX& A, MX& B) const
    {
        MX I = MX::Identity(nx, nx);
        switch (scheme)
        {
            case DISCRETE: A = I + DD * fx(x, u, DD * n); B = DD * fu(x, u, DD * n); break;
            case EULER_FE: A = I + dt * fx(x, u, n * dt); B = dt * fu(x, u, n * dt); break;
            case EULER_SENS2:
            {
                double h = dt / 2, t = n * dt;
                VX y = x + h * f(x, u, t);
                MX A1 = I + h * fx(x, u, t), A2 = I + h * fx(y, u, t + h);
                A = A2 * A1;
                B = A2 * (h * fu(x, u, t)) + h * fu(y, u, t + h);
                break;
            }
            default:
                A = (I - dt * fx(x, u, (n + 1) * dt)).inverse();
                B = A * dt * fu(x, u, (n + 1) * dt);
        }
    }
    // cost rate: 1/2 sum q_i (x_i-r(t))^2 + 1/2 sum r_j u_j^2 + c(t) x_0 u_0 + nl/4 x_0^4 + g u_last,  terminal: 1/2 sum (x-xf(t))^2 w
    double q(int i) const { return 1.0 + 0.5 * i + (cost ? 1.5 : 0.0); }
    double rw(int j) const { return 0.8 + 0.4 * j; }
    double rt(double t) const { return 0.3 - 0.2 * t + (cost ? 0.4 : 0.0); }
    double cr(double t) const { return 0.2 + 0.1 * t; }
    double L(const VX& x, const VX& u, double t) const
    {
        double s = cr(t) * x(0) * u(0) + nl * 0.25 * std::pow(x(0), 4) + 0.1 * u(nu - 1);
        for (int i = 0; i < nx; i++)
            s += 0.5 * q(i) * (x(i) - rt(t)) * (x(i) - rt(t));
        for (int j = 0; j < nu; j++)
            s += 0.5 * rw(j) * u(j) * u(j);
        return s;
    }
    VX Lx(const VX& x, const VX& u, double t) const
    {
        VX g(nx);
        for (int i = 0; i < nx; i++)
            g(i) = q(i) * (x(i) - rt(t));
        g(0) += cr(t) * u(0) + nl * std::pow(x(0), 3);
        return g;
    }
    VX Lu(const VX& x, const VX& u, double t) const
    {
        VX g(nu);
        for (int j = 0; j < nu; j++)
            g(j) = rw(j) * u(j);
        g(0) += cr(t) * x(0);
        g(nu - 1) += 0.1;
        return g;
    }
    MX Lxx(const VX& x, const VX&, double) const
    {
        MX h = MX::Zero(nx, nx);
        for (int i = 0; i < nx; i++)
            h(i, i) = q(i);
        h(0, 0) += nl * 3 * x(0) * x(0);
        return h;
    }
    MX Luu() const
    {
        MX h = MX::Zero(nu, nu);
        for (int j = 0; j < nu; j++)
            h(j, j) = rw(j);
        return h;
    }
    MX Lux(double t) const
    {
        MX h = MX::Zero(nu, nx);
        h(0, 0) = cr(t);
        return h;
    }
    double w(int i) const { return 2.0 + i + (cost ? 1.0 : 0.0); }
    double xf(double t) const { return -0.2 + 0.3 * t; }
    double E(const VX& x, double t) const
    {
        double s = 0;
        for (int i = 0; i < nx; i++)
            s += 0.5 * w(i) * (x(i) - xf(t)) * (x(i) - xf(t));
        return s;
    }
    VX Ex(const VX& x, double t) const
    {
        VX g(nx);
        for (int i = 0; i < nx; i++)
            g(i) = w(i) * (x(i) - xf(t));
        return g;
    }
    MX Exx() const
    {
        MX h = MX::Zero(nx, nx);
        for (int i = 0; i < nx; i++)
            h(i, i) = w(i);
        return h;
    }
};

typedef ct::optcon::NLOptConSettings S;
inline bool closedLoop(int a) { return a == S::ILQR || a == S::MS_ILQR || a == S::SS_CL || a == S::GNMS_M_CL; }
inline bool single(int a) { return a == S::ILQR || a == S::SS_OL || a == S::SS_CL; }

// ---- reference solver
struct Ref
{
    Prob p;
    int alg = 0, Kshot = 1, K = 1;
    int ls = 0;  // 0 none, 1 simple, 2 armijo
    int lsMax = 4;
    double alpha0 = 1, nAlpha = 0.5, armijo = 0.01, rho = 0, minImp = 1e-5, maxDefect = 1e-5, eps = 1e-5;
    bool fixedCorr = false;
    // iterate
    VA x, u, xr, d;
    MA L;
    bool fresh = true;      // next iteration starts with a rollout
    bool mpcState = false;  // a multiple shooting MPC iteration leaves the iterate without rollout
    double ci = 0, cf = 0;
    bool costKnown = false;
    // last iteration
    MA A, B;
    VA b;
    double alpha = 0, merit = 0, dn = 0, dn2 = 0, lxn = 0, lun = 0;
    bool better = false;
    int iter = 0;

    int shot() const { return single(alg) ? K : std::min(K, Kshot); }
    void costs(const VA& X, const VA& U, double& a, double& t) const
    {
        a = 0;
        for (int k = 0; k < K; k++)
            a += p.dt * p.L(X[k], U[k], k * p.dt);
        t = p.E(X[K], K * p.dt);
    }
    void guess(const VA& X, const VA& U, const MA& G)
    {
        x.assign(X.begin(), X.begin() + K + 1);
        u.assign(U.begin(), U.begin() + K);
        L.assign(G.begin(), G.begin() + K);
        xr = x;
        restart();
        costs(x, u, ci, cf);
        costKnown = true;
    }
    int maxIter = 100;
    void restart()
    {
        fresh = true;
        mpcState = false;
        iter = 0;
        costKnown = false;
        d.assign(K, VX::Zero(p.nx));
    }
    // every shot starts in its own decision variable; the controller is evaluated along the way
    void roll(VA& X, VA& U, const VA& ref, VA& D) const
    {
        D.assign(K, VX::Zero(p.nx));
        for (int s = 0; s < K; s += shot())
        {
            VX y = X[s];
            int e = std::min(K, s + shot());
            for (int k = s; k < e; k++)
            {
                X[k] = y;
                if (closedLoop(alg))
                    U[k] += L[k] * (y - ref[k]);
                y = p.step(y, k, U[k]);
            }
            if (e == K)
                X[K] = y;
            else
                D[e - 1] = y - X[e];
        }
    }
    static double l1(const VA& D)
    {
        double s = 0;
        for (auto& v : D)
            s += v.lpNorm<1>();
        return s;
    }
    static double l2(const VA& D)
    {
        double s = 0;
        for (auto& v : D)
            s += v.norm();
        return s;
    }
    static double dist(const VA& a, const VA& c)
    {
        double s = 0;
        for (size_t i = 0; i < a.size(); i++)
            s += (a[i] - c[i]).norm();
        return s;
    }
    LqRef lq() const
    {
        LqRef q;
        for (int k = 0; k < K; k++)
        {
            double t = k * p.dt;
            LqStage s;
            MX a, bb;
            p.lin(x[k], u[k], k, a, bb);
            s.A = a;
            s.B = bb;
            s.b = d[k];
            s.Q = p.dt * p.Lxx(x[k], u[k], t);
            s.R = p.dt * p.Luu();
            if (fixedCorr)
                s.R += eps * MX::Identity(p.nu, p.nu);
            s.P = p.dt * p.Lux(t);
            s.qv = p.dt * p.Lx(x[k], u[k], t);
            s.rv = p.dt * p.Lu(x[k], u[k], t);
            q.s.push_back(s);
        }
        q.QN = p.Exx();
        q.qvN = p.Ex(x[K], K * p.dt);
        return q;
    }
    // one iteration; mpc: multiple shooting takes the full step without a rollout.  Returns false when the outcome of a
    // comparison is too close to call (rounding decides)
    bool iterate(bool mpc)
    {
        bool rt = mpc && !single(alg);
        if (fresh || rt)
        {
            roll(x, u, xr, d);
            xr = x;
            costs(x, u, ci, cf);
        }
        fresh = false;
        LqRef q = lq();
        A.clear();
        B.clear();
        b = d;
        for (auto& s : q.s)
        {
            A.push_back(s.A);
            B.push_back(s.B);
        }
        VA dx, du;
        q.solve(0, VX::Zero(p.nx), dx, du);
        MA G(K);
        VA lv(K);
        for (int k = 0; k < K; k++)
            q.law(k, G[k], lv[k]);
        for (int k = 0; k < K; k++)
            L[k] = closedLoop(alg) ? G[k] : MX::Zero(p.nu, p.nx);
        iter++;
        auto candidate = [&](double al, VA& X, VA& U, VA& D, double& a, double& t) {
            X = x;
            U = u;
            VA ref = x;
            for (int k = 0; k <= K; k++)
            {
                X[k] += al * dx[k];
                ref[k] += al * dx[k];
                if (k < K)
                    U[k] += al * du[k];
            }
            roll(X, U, ref, D);
            costs(X, U, a, t);
        };
        auto close = [](double v, double w) { return std::fabs(v - w) <= 1e-9 * (1 + std::fabs(v) + std::fabs(w)); };
        if (rt)
        {
            for (int k = 0; k <= K; k++)
            {
                x[k] += dx[k];
                if (k < K)
                    u[k] += du[k];
            }
            xr = x;
            alpha = 1;
            better = true;
            mpcState = true;
            costKnown = false;
            return true;
        }
        double dn0 = l1(d);
        VA X, U, D;
        double a = 0, t = 0, mPrev, mNew;
        if (ls == 0)
        {
            mPrev = ci + cf;
            candidate(1, X, U, D, a, t);
            mNew = a + t;
            alpha = 1;
        }
        else
        {
            mPrev = ci + cf + rho * dn0;
            mNew = mPrev;
            alpha = 0;
            double al = alpha0;
            double D1 = 0, D2 = 0;
            for (int k = 0; k < K; k++)
            {
                D1 += lv[k].dot(q.s[k].rv.col(0));
                D2 += lv[k].dot((q.s[k].R - (fixedCorr ? eps : 0) * MX::Identity(p.nu, p.nu)) * lv[k]);
            }
            for (int i = 0; i < lsMax; i++, al *= nAlpha)
            {
                candidate(al, X, U, D, a, t);
                double m = a + t + rho * l1(D);
                if (!std::isfinite(m))
                {
                    if (std::isnan(m))
                        continue;
                    return false;
                }
                if (close(m, mPrev))
                    return false;
                bool ok = m < mPrev;
                if (ls == 2)
                {
                    double need = armijo * al * (D1 + 0.5 * al * D2);
                    if (close(mPrev - m, need))
                        return false;
                    ok = ok && mPrev - m >= need;
                }
                if (ok)
                {
                    alpha = al;
                    mNew = m;
                    break;
                }
            }
        }
        lxn = lun = 0;
        if (alpha != 0)
        {
            lxn = dist(X, x);
            lun = dist(U, u);
            x = X;
            u = U;
            d = D;
            ci = a;
            cf = t;
        }
        xr = x;
        costKnown = true;
        dn = l1(d);
        dn2 = l2(d);
        merit = ci + cf + rho * dn;
        if (alpha == 0)
            better = false;
        else
        {
            double imp = std::fabs((mPrev - mNew) / mPrev);
            if (close(imp, minImp) || (dn > 0 && close(dn, maxDefect)))
                return false;
            better = imp > minImp || dn > maxDefect;
        }
        if (mpc)
            better = true;
        return std::isfinite(merit);
    }
};

// ---- the same problem as objects of the toolbox
template <size_t NX, size_t NU>
struct Cost : ct::optcon::CostFunctionQuadratic<NX, NU>
{
    typedef ct::optcon::CostFunctionQuadratic<NX, NU> Base;
    using typename Base::control_matrix_t;
    using typename Base::control_state_matrix_t;
    using typename Base::control_vector_t;
    using typename Base::state_matrix_t;
    using typename Base::state_vector_t;
    Prob p;
    Cost(const Prob& q) : p(q) {}
    Cost* clone() const override { return new Cost(*this); }
    double evaluateIntermediate() override { return p.L(this->x_, this->u_, this->t_); }
    double evaluateTerminal() override { return p.E(this->x_, this->t_); }
    state_vector_t stateDerivativeIntermediate() override { return state_vector_t(p.Lx(this->x_, this->u_, this->t_)); }
    control_vector_t controlDerivativeIntermediate() override { return control_vector_t(p.Lu(this->x_, this->u_, this->t_)); }
    state_matrix_t stateSecondDerivativeIntermediate() override { return p.Lxx(this->x_, this->u_, this->t_); }
    control_matrix_t controlSecondDerivativeIntermediate() override { return p.Luu(); }
    control_state_matrix_t stateControlDerivativeIntermediate() override { return p.Lux(this->t_); }
    state_vector_t stateDerivativeTerminal() override { return state_vector_t(p.Ex(this->x_, this->t_)); }
    control_vector_t controlDerivativeTerminal() override { return control_vector_t::Zero(); }
    state_matrix_t stateSecondDerivativeTerminal() override { return p.Exx(); }
    control_matrix_t controlSecondDerivativeTerminal() override { return control_matrix_t::Zero(); }
    control_state_matrix_t stateControlDerivativeTerminal() override { return control_state_matrix_t::Zero(); }
};
template <size_t NX, size_t NU>
struct CSys : ct::core::ControlledSystem<NX, NU>
{
    Prob p;
    double scratch = 0;
    CSys(const Prob& q) : p(q) {}
    CSys* clone() const override { return new CSys(*this); }
    void computeControlledDynamics(const ct::core::StateVector<NX>& x, const double& t, const ct::core::ControlVector<NU>& u, ct::core::StateVector<NX>& d) override
    {
        scratch = x(0);
        d = p.f(x, u, t);
    }
};
template <size_t NX, size_t NU>
struct CLin : ct::core::LinearSystem<NX, NU>
{
    Prob p;
    ct::core::StateMatrix<NX> A;
    ct::core::StateControlMatrix<NX, NU> B;
    CLin(const Prob& q) : p(q) {}
    CLin* clone() const override { return new CLin(*this); }
    const ct::core::StateMatrix<NX>& getDerivativeState(const ct::core::StateVector<NX>& x, const ct::core::ControlVector<NU>& u, const double t = 0.0) override
    {
        return A = p.fx(x, u, t);
    }
    const ct::core::StateControlMatrix<NX, NU>& getDerivativeControl(const ct::core::StateVector<NX>& x, const ct::core::ControlVector<NU>& u, const double t = 0.0) override
    {
        return B = p.fu(x, u, t);
    }
};
template <size_t NX, size_t NU>
struct DSys : ct::core::DiscreteControlledSystem<NX, NU>
{
    Prob p;
    double scratch = 0;  // written on every call: an instance shared by two threads is a race
    DSys(const Prob& q) : p(q) {}
    DSys* clone() const override { return new DSys(*this); }
    void propagateControlledDynamics(const ct::core::StateVector<NX>& x, const int n, const ct::core::ControlVector<NU>& u, ct::core::StateVector<NX>& xn) override
    {
        scratch = x(0);
        xn = p.step(x, n, u);
    }
};
template <size_t NX, size_t NU>
struct DLin : ct::core::DiscreteLinearSystem<NX, NU>
{
    typedef ct::core::DiscreteLinearSystem<NX, NU> Base;
    Prob p;
    double scratch = 0;
    DLin(const Prob& q) : p(q) {}
    DLin* clone() const override { return new DLin(*this); }
    void getAandB(const ct::core::StateVector<NX>& x,
        const ct::core::ControlVector<NU>& u,
        const ct::core::StateVector<NX>&,
        const int n,
        size_t,
        ct::core::StateMatrix<NX>& A,
        ct::core::StateControlMatrix<NX, NU>& B) override
    {
        MX a, b;
        scratch = x(0);
        p.lin(x, u, n, a, b);
        A = a;
        B = b;
    }
};

template <size_t NX, size_t NU, bool CONT>
struct Make;
template <size_t NX, size_t NU>
struct Make<NX, NU, true>
{
    typedef ct::optcon::ContinuousOptConProblem<NX, NU> Problem;
    typedef CSys<NX, NU> Sys;
    typedef CLin<NX, NU> Lin;
    static Problem problem(const Prob& p, int K, const VX& x0)
    {
        return Problem(K * p.dt, ct::core::StateVector<NX>(x0), std::shared_ptr<Sys>(new Sys(p)), std::shared_ptr<Cost<NX, NU>>(new Cost<NX, NU>(p)), std::shared_ptr<Lin>(new Lin(p)));
    }
};
template <size_t NX, size_t NU>
struct Make<NX, NU, false>
{
    typedef ct::optcon::DiscreteOptConProblem<NX, NU> Problem;
    typedef DSys<NX, NU> Sys;
    typedef DLin<NX, NU> Lin;
    static Problem problem(const Prob& p, int K, const VX& x0)
    {
        return Problem(K, ct::core::StateVector<NX>(x0), std::shared_ptr<Sys>(new Sys(p)), std::shared_ptr<Cost<NX, NU>>(new Cost<NX, NU>(p)), std::shared_ptr<Lin>(new Lin(p)));
    }
};
inline S settings(const Ref& r, int nThreads = 1)
{
    S s;
    s.dt = r.p.dt;
    s.nlocp_algorithm = (S::NLOCP_ALGORITHM)r.alg;
    s.K_shot = r.Kshot;
    s.K_sim = 1;
    s.integrator = ct::core::IntegrationType::EULERCT;
    s.discretization = S::APPROXIMATION::FORWARD_EULER;
    if (r.p.scheme == EULER_SENS2)
    {
        s.K_sim = 2;
        s.useSensitivityIntegrator = true;
        s.timeVaryingDiscretization = true;
    }
    if (r.p.scheme == RK4_BE)
    {
        s.integrator = ct::core::IntegrationType::RK4;
        s.discretization = S::APPROXIMATION::BACKWARD_EULER;
    }
    s.min_cost_improvement = r.minImp;
    s.maxDefectSum = r.maxDefect;
    s.meritFunctionRho = r.rho;
    s.epsilon = r.eps;
    s.fixedHessianCorrection = r.fixedCorr;
    s.max_iterations = r.maxIter;
    s.nThreads = nThreads;
    s.nThreadsEigen = 1;
    s.printSummary = false;
    s.debugPrint = false;
    s.lineSearchSettings.type = r.ls == 0 ? ct::optcon::LineSearchSettings::TYPE::NONE
                                          : r.ls == 1 ? ct::optcon::LineSearchSettings::TYPE::SIMPLE : ct::optcon::LineSearchSettings::TYPE::ARMIJO;
    s.lineSearchSettings.maxIterations = r.lsMax;
    s.lineSearchSettings.alpha_0 = r.alpha0;
    s.lineSearchSettings.alpha_max = r.alpha0;
    s.lineSearchSettings.n_alpha = r.nAlpha;
    s.lineSearchSettings.armijo_parameter = r.armijo;
    s.lineSearchSettings.debugPrint = false;
    return s;
}
template <size_t NX, size_t NU>
inline ct::core::StateFeedbackController<NX, NU> policy(const VA& x, const VA& u, const MA& L, double dt)
{
    ct::core::StateVectorArray<NX> xs;
    ct::core::ControlVectorArray<NU> us;
    ct::core::FeedbackArray<NX, NU> fs;
    for (auto& v : x)
        xs.push_back(ct::core::StateVector<NX>(v));
    for (auto& v : u)
        us.push_back(ct::core::ControlVector<NU>(v));
    for (auto& v : L)
        fs.push_back(ct::core::FeedbackMatrix<NX, NU>(v));
    return ct::core::StateFeedbackController<NX, NU>(xs, us, fs, dt);
}
// guesses: 0 = initial state everywhere, no control; 1 = inconsistent states, non-zero controls and gains
inline void makeGuess(int kind, int nx, int nu, int K, const VX& x0, VA& x, VA& u, MA& L)
{
    x.clear();
    u.clear();
    L.clear();
    for (int k = 0; k <= K; k++)
    {
        VX v = x0;
        if (kind && k > 0)
            for (int i = 0; i < nx; i++)
                v(i) += 0.3 * std::sin(1.0 + k + 2.0 * i);
        x.push_back(v);
        if (k == K)
            break;
        VX w = VX::Zero(nu);
        MX g = MX::Zero(nu, nx);
        if (kind)
        {
            for (int j = 0; j < nu; j++)
                w(j) = 0.4 - 0.3 * k + 0.2 * j;
            for (int j = 0; j < nu; j++)
                for (int i = 0; i < nx; i++)
                    g(j, i) = -0.4 + 0.15 * i + 0.1 * j - 0.05 * k;
        }
        u.push_back(w);
        L.push_back(g);
    }
}
}  // namespace nloc
