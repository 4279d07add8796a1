// P19: multiple-shooting transcription against an independent transcription with complex-step derivatives
// MC_LIBS: -lipopt -llapack -lblas
#include <ct/optcon/optcon.h>
#include <complex>
#include "mc.h"
#include "mc_file.h"
using namespace ct::core;
using namespace ct::optcon;
typedef std::complex<double> Z;
typedef std::vector<double> DV;
typedef std::vector<Z> ZV;

// ---- the problem (dynamics, cost, constraints), generic in the scalar
template <int NX, int NU>
struct Model
{
    template <class T>
    static void f(const T* x, const T* u, double t, T* dx)
    {
        for (int i = 0; i < NX; i++)
        {
            dx[i] = -0.3 * (i + 1) * x[i] + x[(i + 1) % NX] * (0.4 + 0.2 * t) + 0.3 * sin(x[(i + 2) % NX]) + 0.2 * x[i] * u[0];
            for (int j = 0; j < NU; j++)
                dx[i] += (0.5 + 0.25 * j - 0.35 * i) * u[j];
        }
    }
    template <class T>
    static T L(const T* x, const T* u, double t)
    {
        T r = 0.3 * (1 + t) * x[0] * u[0] + 0.1 * x[0] * x[0] * x[0];
        for (int i = 0; i < NX; i++)
            r += 0.5 * (i + 1) * (x[i] - 0.2 * t) * (x[i] - 0.2 * t);
        for (int j = 0; j < NU; j++)
            r += 0.5 * (1 + 0.3 * j) * u[j] * u[j];
        return r;
    }
    template <class T>
    static T E(const T* x, double t)
    {
        T r = 0.2 * x[0] * x[0] * x[0];
        for (int i = 0; i < NX; i++)
            r += (2.0 + i) * (x[i] - 0.3 - 0.1 * t) * (x[i] - 0.3 - 0.1 * t);
        return r;
    }
    template <class T>
    static void g(const T* x, const T* u, double t, T* r)
    {
        r[0] = x[0] * u[0] + t * x[NX - 1];
        r[1] = x[NX - 1] * x[NX - 1] + 2.0 * u[NU - 1] + 0.5 * t;
    }
    template <class T>
    static T gT(const T* x, const T* u, double t)
    {
        return x[0] * x[0] * (1 + t) + 0.5 * u[0] * x[NX - 1];
    }
};
static const double H = 1e-30;  // complex step
template <int NX, int NU>
struct Point  // complex copies of a point
{
    Z x[NX], u[NU];
    template <class VX, class VU>
    Point(const VX& xx, const VU& uu)
    {
        for (int i = 0; i < NX; i++)
            x[i] = xx(i);
        for (int j = 0; j < NU; j++)
            u[j] = uu(j);
    }
};
template <size_t NX, size_t NU>
struct Sys : ControlledSystem<NX, NU>
{
    Sys* clone() const override { return new Sys(*this); }
    void computeControlledDynamics(const StateVector<NX>& x, const double& t, const ControlVector<NU>& u, StateVector<NX>& d) override
    {
        Model<NX, NU>::f(x.data(), u.data(), t, d.data());
    }
};
template <size_t NX, size_t NU>
struct Lin : LinearSystem<NX, NU>
{
    StateMatrix<NX> A;
    StateControlMatrix<NX, NU> B;
    Lin* clone() const override { return new Lin(*this); }
    const StateMatrix<NX>& getDerivativeState(const StateVector<NX>& x, const ControlVector<NU>& u, const double t = 0.0) override
    {
        for (size_t k = 0; k < NX; k++)
        {
            Point<NX, NU> p(x, u);
            p.x[k] += Z(0, H);
            Z d[NX];
            Model<NX, NU>::f(p.x, p.u, t, d);
            for (size_t i = 0; i < NX; i++)
                A(i, k) = d[i].imag() / H;
        }
        return A;
    }
    const StateControlMatrix<NX, NU>& getDerivativeControl(const StateVector<NX>& x, const ControlVector<NU>& u, const double t = 0.0) override
    {
        for (size_t k = 0; k < NU; k++)
        {
            Point<NX, NU> p(x, u);
            p.u[k] += Z(0, H);
            Z d[NX];
            Model<NX, NU>::f(p.x, p.u, t, d);
            for (size_t i = 0; i < NX; i++)
                B(i, k) = d[i].imag() / H;
        }
        return B;
    }
};
template <size_t NX, size_t NU>
struct Cost : CostFunctionQuadratic<NX, NU>
{
    typedef CostFunctionQuadratic<NX, NU> Base;
    using typename Base::control_matrix_t;
    using typename Base::control_state_matrix_t;
    using typename Base::control_vector_t;
    using typename Base::state_matrix_t;
    using typename Base::state_vector_t;
    Cost* clone() const override { return new Cost(*this); }
    double evaluateIntermediate() override { return Model<NX, NU>::L(this->x_.data(), this->u_.data(), this->t_); }
    double evaluateTerminal() override { return Model<NX, NU>::E(this->x_.data(), this->t_); }
    state_vector_t stateDerivativeIntermediate() override
    {
        state_vector_t r;
        for (size_t k = 0; k < NX; k++)
        {
            Point<NX, NU> p(this->x_, this->u_);
            p.x[k] += Z(0, H);
            r(k) = Model<NX, NU>::L(p.x, p.u, this->t_).imag() / H;
        }
        return r;
    }
    control_vector_t controlDerivativeIntermediate() override
    {
        control_vector_t r;
        for (size_t k = 0; k < NU; k++)
        {
            Point<NX, NU> p(this->x_, this->u_);
            p.u[k] += Z(0, H);
            r(k) = Model<NX, NU>::L(p.x, p.u, this->t_).imag() / H;
        }
        return r;
    }
    state_vector_t stateDerivativeTerminal() override
    {
        state_vector_t r;
        for (size_t k = 0; k < NX; k++)
        {
            Point<NX, NU> p(this->x_, this->u_);
            p.x[k] += Z(0, H);
            r(k) = Model<NX, NU>::E(p.x, this->t_).imag() / H;
        }
        return r;
    }
    // only used by exact-Hessian solvers, which the transcription does not offer
    state_matrix_t stateSecondDerivativeIntermediate() override { return state_matrix_t::Zero(); }
    state_matrix_t stateSecondDerivativeTerminal() override { return state_matrix_t::Zero(); }
    control_matrix_t controlSecondDerivativeIntermediate() override { return control_matrix_t::Zero(); }
    control_state_matrix_t stateControlDerivativeIntermediate() override { return control_state_matrix_t::Zero(); }
};
template <size_t NX, size_t NU>
struct Gen : ConstraintBase<NX, NU>
{
    typedef ConstraintBase<NX, NU> Base;
    using typename Base::MatrixXs;
    using typename Base::VectorXs;
    bool terminal;
    explicit Gen(bool term) : Base("gen"), terminal(term)
    {
        this->lb_.resize(term ? 1 : 2);
        this->ub_.resize(term ? 1 : 2);
        if (term)
            this->lb_ << -4.0, this->ub_ << 5.0;
        else
        {
            this->lb_ << -2.0, -3.0;
            this->ub_ << 6.0, 7.0;
        }
    }
    Gen* clone() const override { return new Gen(*this); }
    size_t getConstraintSize() const override { return terminal ? 1 : 2; }
    VectorXs evaluate(const StateVector<NX>& x, const ControlVector<NU>& u, const double t) override
    {
        VectorXs v(getConstraintSize());
        if (terminal)
            v(0) = Model<NX, NU>::gT(x.data(), u.data(), t);
        else
            Model<NX, NU>::g(x.data(), u.data(), t, v.data());
        return v;
    }
    MatrixXs jac(const StateVector<NX>& x, const ControlVector<NU>& u, const double t, bool input)
    {
        const size_t n = input ? NU : NX;
        MatrixXs j(getConstraintSize(), n);
        for (size_t k = 0; k < n; k++)
        {
            Point<NX, NU> p(x, u);
            (input ? p.u[k] : p.x[k]) += Z(0, H);
            Z r[2];
            if (terminal)
                r[0] = Model<NX, NU>::gT(p.x, p.u, t);
            else
                Model<NX, NU>::g(p.x, p.u, t, r);
            for (size_t i = 0; i < getConstraintSize(); i++)
                j(i, k) = r[i].imag() / H;
        }
        return j;
    }
    MatrixXs jacobianState(const StateVector<NX>& x, const ControlVector<NU>& u, const double t) override { return jac(x, u, t, false); }
    MatrixXs jacobianInput(const StateVector<NX>& x, const ControlVector<NU>& u, const double t) override { return jac(x, u, t, true); }
};

// ---- reference transcription
struct Cfg
{
    size_t N;
    double T, dtSim;
    bool linear, full, rk4;
    bool inputBox, stateBox, general;
};
template <int NX, int NU>
struct Ref
{
    static const int NP = NX + NU;
    Cfg c;
    double T;       // current horizon
    DV x0;          // current initial state
    DV w;           // current iterate
    explicit Ref(const Cfg& cc) : c(cc), T(cc.T), x0(NX, 0.0), w((cc.N + 1) * NP, 0.0) {}
    double dur() const { return T / c.N; }
    int steps() const { return std::max(1, int(std::floor(dur() / c.dtSim + 0.5))); }
    double tn(size_t n) const { return n * dur(); }
    void control(const ZV& w, size_t shot, double s, Z* u) const  // s in [0,1] within the shot
    {
        for (int j = 0; j < NU; j++)
            u[j] = c.linear ? (1.0 - s) * w[shot * NP + NX + j] + s * w[(shot + 1) * NP + NX + j] : w[shot * NP + NX + j];
    }
    // integrates state and running cost over a shot
    void shot(const ZV& w, size_t k, Z* x, Z& cost) const
    {
        for (int i = 0; i < NX; i++)
            x[i] = w[k * NP + i];
        cost = 0;
        const int n = steps();
        const double h = dur() / n;
        typedef Model<NX, NU> M;
        for (int s = 0; s < n; s++)
        {
            const double t = tn(k) + s * h;
            Z u0[NU], um[NU], u1[NU], k1[NX], k2[NX], k3[NX], k4[NX], y[NX];
            control(w, k, double(s) / n, u0);
            control(w, k, (s + 0.5) / n, um);
            control(w, k, double(s + 1) / n, u1);
            M::f(x, u0, t, k1);
            Z l = M::L(x, u0, t);
            if (!c.rk4)
            {
                cost += h * l;
                for (int i = 0; i < NX; i++)
                    x[i] += h * k1[i];
                continue;
            }
            for (int i = 0; i < NX; i++)
                y[i] = x[i] + 0.5 * h * k1[i];
            M::f(y, um, t + 0.5 * h, k2);
            l += 2.0 * M::L(y, um, t + 0.5 * h);
            for (int i = 0; i < NX; i++)
                y[i] = x[i] + 0.5 * h * k2[i];
            M::f(y, um, t + 0.5 * h, k3);
            l += 2.0 * M::L(y, um, t + 0.5 * h);
            for (int i = 0; i < NX; i++)
                y[i] = x[i] + h * k3[i];
            M::f(y, u1, t + h, k4);
            l += M::L(y, u1, t + h);
            cost += h / 6.0 * l;
            for (int i = 0; i < NX; i++)
                x[i] += h / 6.0 * (k1[i] + 2.0 * k2[i] + 2.0 * k3[i] + k4[i]);
        }
    }
    Z cost(const ZV& w) const
    {
        Z r = Model<NX, NU>::E(&w[c.N * NP], T);
        if (c.full)
        {
            for (size_t k = 0; k < c.N; k++)
            {
                Z x[NX], l;
                shot(w, k, x, l);
                r += l;
            }
            return r;
        }
        for (size_t n = 0; n <= c.N; n++)
        {
            double wt = c.linear ? (n == 0 || n == c.N ? 0.5 : 1.0) : (n == c.N ? 0.0 : 1.0);
            r += wt * dur() * Model<NX, NU>::L(&w[n * NP], &w[n * NP + NX], tn(n));
        }
        return r;
    }
    ZV constraints(const ZV& w) const
    {
        ZV r;
        for (int i = 0; i < NX; i++)
            r.push_back(w[i] - x0[i]);
        for (size_t k = 0; k < c.N; k++)
        {
            Z x[NX], l;
            shot(w, k, x, l);
            for (int i = 0; i < NX; i++)
                r.push_back(w[(k + 1) * NP + i] - x[i]);
        }
        for (size_t n = 0; n <= c.N; n++)
        {
            if (c.inputBox)
                for (int j = 0; j < NU; j++)
                    r.push_back(w[n * NP + NX + j]);
            if (c.stateBox)
                r.push_back(w[n * NP + NX - 1]);
            if (c.general)
            {
                Z g[2];
                Model<NX, NU>::g(&w[n * NP], &w[n * NP + NX], tn(n), g);
                r.push_back(g[0]);
                r.push_back(g[1]);
            }
        }
        if (c.stateBox)
            for (int i = 0; i < NX; i++)
                r.push_back(w[c.N * NP + i]);
        if (c.general)
            r.push_back(Model<NX, NU>::gT(&w[c.N * NP], &w[c.N * NP + NX], T));
        return r;
    }
    void bounds(DV& lo, DV& hi) const
    {
        auto add = [&](double a, double b) {
            lo.push_back(a);
            hi.push_back(b);
        };
        for (size_t i = 0; i < (c.N + 1) * NX; i++)
            add(0, 0);
        for (size_t n = 0; n <= c.N; n++)
        {
            if (c.inputBox)
                for (int j = 0; j < NU; j++)
                    add(-1.0 - j, 2.0 + j);
            if (c.stateBox)
                add(-5.0, 4.5);
            if (c.general)
                add(-2.0, 6.0), add(-3.0, 7.0);
        }
        if (c.stateBox)
            for (int i = 0; i < NX; i++)
                add(-0.5 - i, 0.25 + i);
        if (c.general)
            add(-4.0, 5.0);
    }
    ZV zw() const { return ZV(w.begin(), w.end()); }
};

// ---- the real transcription
template <int NX, int NU>
struct Real
{
    typedef DmsProblem<NX, NU> P;
    typedef ContinuousOptConProblem<NX, NU> OCP;
    std::shared_ptr<P> p;
    static DmsSettings settings(const Cfg& c)
    {
        DmsSettings s;
        s.N_ = c.N;
        s.T_ = c.T;
        s.dt_sim_ = c.dtSim;
        s.splineType_ = c.linear ? DmsSettings::PIECEWISE_LINEAR : DmsSettings::ZERO_ORDER_HOLD;
        s.costEvaluationType_ = c.full ? DmsSettings::FULL : DmsSettings::SIMPLE;
        s.integrationType_ = c.rk4 ? DmsSettings::RK4 : DmsSettings::EULER;
        return s;
    }
    static void constraints(const Cfg& c, std::vector<typename OCP::ConstraintPtr_t>& in, std::vector<typename OCP::ConstraintPtr_t>& st,
        std::vector<typename OCP::ConstraintPtr_t>& ge)
    {
        typedef ConstraintContainerAnalytical<NX, NU> CC;
        if (c.inputBox)
        {
            ControlVector<NU> lo, hi;
            for (int j = 0; j < NU; j++)
                lo(j) = -1.0 - j, hi(j) = 2.0 + j;
            auto cc = std::make_shared<CC>();
            cc->addIntermediateConstraint(std::make_shared<ControlInputConstraint<NX, NU>>(lo, hi), false);
            cc->initialize();
            in.push_back(cc);
        }
        if (c.stateBox)
        {
            // intermediate: only the last state (sparse); terminal: all states
            Eigen::VectorXd l(1), h(1);
            l << -5.0, h << 4.5;
            Eigen::VectorXi sp(NX);
            sp.setZero();
            sp(NX - 1) = 1;
            StateVector<NX> lo, hi;
            for (int i = 0; i < NX; i++)
                lo(i) = -0.5 - i, hi(i) = 0.25 + i;
            auto cc = std::make_shared<CC>();
            cc->addIntermediateConstraint(std::make_shared<StateConstraint<NX, NU>>(l, h, sp), false);
            cc->addTerminalConstraint(std::make_shared<StateConstraint<NX, NU>>(lo, hi), false);
            cc->initialize();
            st.push_back(cc);
        }
        if (c.general)
        {
            auto cc = std::make_shared<CC>();
            cc->addIntermediateConstraint(std::make_shared<Gen<NX, NU>>(false), false);
            cc->addTerminalConstraint(std::make_shared<Gen<NX, NU>>(true), false);
            cc->initialize();
            ge.push_back(cc);
        }
    }
    Real(const Cfg& c, const DV& x0)
    {
        mc::Quiet q;
        std::vector<typename OCP::DynamicsPtr_t> sys;
        std::vector<typename OCP::LinearPtr_t> lin;
        std::vector<typename OCP::CostFunctionPtr_t> cost;
        for (size_t i = 0; i < c.N; i++)
        {
            sys.push_back(std::make_shared<Sys<NX, NU>>());
            lin.push_back(std::make_shared<Lin<NX, NU>>());
            cost.push_back(std::make_shared<Cost<NX, NU>>());
        }
        std::vector<typename OCP::ConstraintPtr_t> in, st, ge;
        constraints(c, in, st, ge);
        p = std::make_shared<P>(settings(c), sys, lin, cost, in, st, ge, StateVector<NX>(Eigen::Map<const Eigen::VectorXd>(x0.data(), NX)));
    }
};

template <int NX, int NU>
struct Twin
{
    mc::Ctx& c;
    Ref<NX, NU> ref;
    Real<NX, NU> real;
    Twin(mc::Ctx& cc, const Cfg& cfg, const DV& x0) : c(cc), ref(cfg), real(cfg, x0) { ref.x0 = x0; }
    size_t n() const { return ref.w.size(); }
    void iterate(const DV& w)
    {
        ref.w = w;
        real.p->extractOptimizationVars(Eigen::Map<const Eigen::VectorXd>(w.data(), w.size()), true);
    }
    void cost()
    {
        c.eq(real.p->evaluateCostFun(), ref.cost(ref.zw()).real(), "cost", 1e-9);
    }
    void gradient()
    {
        Eigen::VectorXd g(n());
        g.setConstant(77);
        Eigen::Map<Eigen::VectorXd> m(g.data(), n());
        real.p->evaluateCostGradient(n(), m);
        for (size_t k = 0; k < n(); k++)
        {
            ZV z = ref.zw();
            z[k] += Z(0, H);
            c.eq(g(k), ref.cost(z).imag() / H, "cost gradient", 1e-9);
        }
    }
    void constraints()
    {
        ZV r = ref.constraints(ref.zw());
        c.eqI(real.p->getConstraintsCount(), r.size(), "number of constraints");
        Eigen::VectorXd v(r.size());
        v.setConstant(77);
        Eigen::Map<Eigen::VectorXd> m(v.data(), r.size());
        real.p->evaluateConstraints(m);
        for (size_t i = 0; i < r.size(); i++)
            c.eq(v(i), r[i].real(), "constraint value", 1e-9);
    }
    void jacobian()
    {
        const size_t m = ref.constraints(ref.zw()).size();
        const size_t nz = real.p->getNonZeroJacobianCount();
        Eigen::VectorXd v(nz + 4);
        v.setConstant(77);
        Eigen::VectorXi ir(nz + 4), jc(nz + 4);
        ir.setConstant(-7);
        jc.setConstant(-7);
        Eigen::Map<Eigen::VectorXd> mv(v.data(), nz);
        Eigen::Map<Eigen::VectorXi> mi(ir.data(), nz), mj(jc.data(), nz);
        real.p->evaluateConstraintJacobian(nz, mv);
        real.p->getSparsityPatternJacobian(nz, mi, mj);
        Eigen::MatrixXd J = Eigen::MatrixXd::Zero(m, n());
        Eigen::MatrixXi seen = Eigen::MatrixXi::Zero(m, n());
        for (size_t k = 0; k < nz; k++)
        {
            c.check(ir(k) >= 0 && ir(k) < int(m) && jc(k) >= 0 && jc(k) < int(n()), "Jacobian index in range");
            c.check(!seen(ir(k), jc(k)), "every Jacobian position at most once");
            seen(ir(k), jc(k)) = 1;
            J(ir(k), jc(k)) = v(k);
        }
        for (size_t k = 0; k < n(); k++)
        {
            ZV z = ref.zw();
            z[k] += Z(0, H);
            ZV r = ref.constraints(z);
            for (size_t i = 0; i < m; i++)
                c.eq(J(i, k), r[i].imag() / H, "constraint Jacobian", 1e-9);
        }
    }
    void bounds()
    {
        DV lo, hi;
        ref.bounds(lo, hi);
        Eigen::VectorXd a(lo.size()), b(lo.size());
        Eigen::Map<Eigen::VectorXd> ma(a.data(), lo.size()), mb(b.data(), lo.size());
        real.p->getConstraintBounds(ma, mb, lo.size());
        for (size_t i = 0; i < lo.size(); i++)
        {
            c.eq(a(i), lo[i], "lower bound");
            c.eq(b(i), hi[i], "upper bound");
        }
    }
    DV consistent() const  // a dynamically consistent trajectory starting at the initial state
    {
        DV w = iterateTable(2);
        for (int i = 0; i < NX; i++)
            w[i] = ref.x0[i];
        for (size_t k = 0; k < ref.c.N; k++)
        {
            Z x[NX], l;
            ZV z(w.begin(), w.end());
            ref.shot(z, k, x, l);
            for (int i = 0; i < NX; i++)
                w[(k + 1) * (NX + NU) + i] = x[i].real();
        }
        return w;
    }
    DV iterateTable(int k) const
    {
        DV w(n());
        for (size_t i = 0; i < w.size(); i++)
            w[i] = 0.3 * ((i * (k + 2) + k) % 5) - 0.5 + 0.1 * k + 0.01 * i;
        return w;
    }
};

template <int NX, int NU>
static DV startState(int k)
{
    DV v(NX);
    for (int i = 0; i < NX; i++)
        v[i] = 0.4 * k - 0.3 * i + 0.1;
    return v;
}
static Cfg pickCfg(mc::Ctx& c, bool small)
{
    Cfg f;
    f.N = small ? 2 : 1 + c.choose(3);
    f.T = small ? 1.0 : c.pick<double>({1.0, 1.5});
    f.dtSim = small ? 0.25 : c.pick<double>({0.25, 0.2, 2.0});  // dividing the shot, not dividing it, longer than it
    f.linear = c.flip();
    f.full = c.flip();
    f.rk4 = c.flip();
    if (small)
        f.inputBox = f.stateBox = f.general = c.flip();
    else
        f.inputBox = c.flip(), f.stateBox = c.flip(), f.general = c.flip();
    return f;
}
template <int NX, int NU>
static void configurations(mc::Ctx& c)
{
    Cfg f = pickCfg(c, false);
    Twin<NX, NU> t(c, f, startState<NX, NU>(1));
    t.bounds();
    t.iterate(t.iterateTable(c.choose(2)));
    t.cost();
    t.gradient();
    t.constraints();
    t.jacobian();
    c.step(4);
    // dynamically consistent trajectories have no defect
    t.iterate(t.consistent());
    Eigen::VectorXd v(t.real.p->getConstraintsCount());
    Eigen::Map<Eigen::VectorXd> m(v.data(), v.size());
    t.real.p->evaluateConstraints(m);
    for (size_t i = 0; i < (f.N + 1) * NX; i++)
        c.eq(v(i), 0.0, "defect of a consistent trajectory", 1e-10);
    t.constraints();
    // the solution accessors return the iterate
    auto xs = t.real.p->getStateSolution();
    auto us = t.real.p->getInputSolution();
    auto ts = t.real.p->getTimeSolution();
    c.eqI(xs.size(), f.N + 1, "number of solution states");
    c.eqI(us.size(), f.N + 1, "number of solution inputs");
    c.eqI(ts.size(), f.N + 1, "number of solution times");
    for (size_t n = 0; n <= f.N; n++)
    {
        for (int i = 0; i < NX; i++)
            c.eq(xs[n](i), t.ref.w[n * (NX + NU) + i], "solution state");
        for (int j = 0; j < NU; j++)
            c.eq(us[n](j), t.ref.w[n * (NX + NU) + NX + j], "solution input");
        c.eq(ts[n], t.ref.tn(n), "solution time");
    }
    c.eq(t.real.p->getTimeHorizon(), f.T, "time horizon");
    c.state(mc::hd(v.size()));
}
MC_SUITE(configurations_2_1, "2 states, 1 input: shots 1..3 x 2 horizons x 3 integration steps x spline x cost evaluation x integrator x all constraint subsets, 2 iterates plus a consistent trajectory")
{
    configurations<2, 1>(c);
}
MC_SUITE(configurations_3_2, "3 states, 2 inputs: the same configurations")
{
    configurations<3, 2>(c);
}
MC_SUITE(configurations_1_2, "1 state, 2 inputs: the same configurations")
{
    configurations<1, 2>(c);
}

template <int NX, int NU>
static void histories(mc::Ctx& c, int len)
{
    Cfg f = pickCfg(c, true);
    Twin<NX, NU> t(c, f, startState<NX, NU>(0));
    t.iterate(t.iterateTable(0));
    for (int i = 0; i < len; i++)
    {
        int a = c.choose(8);
        static const char* names[] = {"iterate 0", "iterate 1", "initial state, iterate 0", "horizon, iterate 1", "cost", "gradient", "constraints", "jacobian"};
        c.log() << names[a] << "; ";
        switch (a)
        {
            case 0:
            case 1:
                t.iterate(t.iterateTable(a));
                break;
            case 2:
                t.ref.x0 = startState<NX, NU>(2);
                t.real.p->changeInitialState(StateVector<NX>(Eigen::Map<const Eigen::VectorXd>(t.ref.x0.data(), NX)));
                t.iterate(t.iterateTable(0));
                break;
            case 3:
                t.ref.T = 1.7;
                t.real.p->changeTimeHorizon(1.7);
                c.eq(t.real.p->getTimeHorizon(), 1.7, "changed time horizon");
                t.iterate(t.iterateTable(1));
                break;
            case 4:
                t.cost();
                break;
            case 5:
                t.gradient();
                break;
            case 6:
                t.constraints();
                break;
            case 7:
                t.jacobian();
                break;
        }
        c.step(1);
        c.state(mc::mix(mc::mix(mc::hd(t.ref.w[1]), mc::hd(t.ref.T)), mc::mix(mc::hd(t.ref.x0[0]), a)));
    }
    t.cost();
    t.gradient();
    t.jacobian();
    t.constraints();
}
MC_SUITE(histories_2_1, "2 states, 1 input, 2 shots, 16 configurations: all histories of 3 (4 thorough) out of 8 actions (new iterates, initial state, horizon, evaluations)")
{
    histories<2, 1>(c, c.thorough ? 4 : 3);
}
MC_SUITE(histories_3_2, "3 states, 2 inputs, 2 shots, 16 configurations: all histories of 2 (3 thorough) out of 8 actions")
{
    histories<3, 2>(c, c.thorough ? 3 : 2);
}

// ---- optimisation vector and time grid
MC_SUITE(opt_vector, "shots 1..4: positions, accessors, both initial guesses, boundary state changes, wrong guess sizes; all histories of 3 out of 6 writes")
{
    const size_t NX = 3, NU = 2, NP = NX + NU;
    DmsSettings s;
    s.N_ = 1 + c.choose(4);
    const size_t n = (s.N_ + 1) * NP;
    OptVectorDms<NX, NU> w(n, s);
    c.eqI(w.numPairs(), s.N_ + 1, "number of pairs");
    std::vector<int> used(n, 0);
    for (size_t k = 0; k <= s.N_; k++)
    {
        for (size_t i = 0; i < NX; i++)
            used.at(w.getStateIndex(k) + i)++;
        for (size_t i = 0; i < NU; i++)
            used.at(w.getControlIndex(k) + i)++;
    }
    for (size_t i = 0; i < n; i++)
        c.eqI(used[i], 1, "every variable belongs to exactly one node");
    Eigen::VectorXd x = Eigen::VectorXd::Zero(n), init = Eigen::VectorXd::Zero(n);
    w.setZero();
    for (int step = 0; step < 3; step++)
    {
        int a = c.choose(6);
        StateVector<NX> p, q;
        ControlVector<NU> u;
        p << 1.0 + step, -2.0, 0.5;
        q << 4.0, 1.0 - step, -1.5;
        u << 0.25, 3.0 + step;
        switch (a)
        {
            case 0:
                for (size_t i = 0; i < n; i++)
                    x(i) = 0.1 * i + step;
                w.setOptimizationVars(x);
                break;
            case 1:
                w.changeInitialState(p);
                x.segment(w.getStateIndex(0), NX) = p;
                break;
            case 2:
                w.changeDesiredState(q);
                x.segment(w.getStateIndex(s.N_), NX) = q;
                break;
            case 3:
                w.setInitGuess(p, q, u);
                for (size_t k = 0; k <= s.N_; k++)
                {
                    double r = double(k) / s.N_;
                    init.segment(w.getStateIndex(k), NX) = (1 - r) * p + r * q;
                    init.segment(w.getControlIndex(k), NU) = u;
                }
                break;
            case 4:
            {
                StateVectorArray<NX> xs(s.N_ + 1);
                ControlVectorArray<NU> us(s.N_ + 1);
                for (size_t k = 0; k <= s.N_; k++)
                {
                    xs[k] = p + 0.5 * double(k) * q;
                    us[k] = double(k + 1) * u;
                    init.segment(w.getStateIndex(k), NX) = xs[k];
                    init.segment(w.getControlIndex(k), NU) = us[k];
                }
                w.setInitGuess(xs, us);
                break;
            }
            default:
            {
                StateVectorArray<NX> xs(s.N_ + (step == 0 ? 0 : 2), p);
                ControlVectorArray<NU> us(s.N_ + 1, u);
                c.throws([&] { w.setInitGuess(xs, us); }, "state guess of wrong length");
                StateVectorArray<NX> xs2(s.N_ + 1, p);
                ControlVectorArray<NU> us2(s.N_ + (step == 0 ? 0 : 2), u);
                c.throws([&] { w.setInitGuess(xs2, us2); }, "control guess of wrong length");
            }
        }
        c.step(1);
        Eigen::VectorXd g(n);
        Eigen::Map<Eigen::VectorXd> mg(g.data(), n);
        w.getInitialGuess(n, mg);
        c.eqM(g, init, "initial guess");
        c.eqM(w.getOptimizationVars(), x, "optimisation variables");
        const auto& xs = w.getOptimizedStates();
        const auto& us = w.getOptimizedInputs();
        c.eqI(xs.size(), s.N_ + 1, "states");
        c.eqI(us.size(), s.N_ + 1, "inputs");
        for (size_t k = 0; k <= s.N_; k++)
        {
            c.eqM(xs[k], x.segment(w.getStateIndex(k), NX), "state of a node");
            c.eqM(us[k], x.segment(w.getControlIndex(k), NU), "control of a node");
            c.eqM(w.getOptimizedState(k), xs[k], "single state");
            c.eqM(w.getOptimizedControl(k), us[k], "single control");
        }
        c.state(mc::mix(mc::mix(mc::hd(x(0)), mc::hd(init(0))), a));
    }
}
MC_SUITE(time_grid_and_splines, "shot counts 1..4, horizon and shot count changes, explicit grids; both splines and their derivatives at node, interior and end times")
{
    ct::optcon::tpl::TimeGrid<double> g0(2, 1.0);
    size_t N = 1 + c.choose(4);
    double T = c.pick<double>({0.7, 2.0});
    auto g = std::make_shared<ct::optcon::tpl::TimeGrid<double>>(N, T);
    std::vector<double> t(N + 1);
    auto uniform = [&] {
        t.assign(N + 1, 0.0);
        for (size_t i = 0; i <= N; i++)
            t[i] = T * i / N;
    };
    uniform();
    for (int s = 0; s < 2; s++)
    {
        switch (c.choose(4))
        {
            case 0:
                T = 3.3;
                g->changeTimeHorizon(T);
                uniform();
                break;
            case 1:
                N = 1 + (N % 4);
                g->changeShotCount(N);
                uniform();
                break;
            case 2:
            {
                Eigen::VectorXd h(N);
                for (size_t i = 0; i < N; i++)
                    h(i) = 0.2 + 0.1 * i;
                g->updateTimeGrid(h);
                t[0] = 0;
                for (size_t i = 0; i < N; i++)
                    t[i + 1] = t[i] + h(i);
                break;
            }
            default:
                break;
        }
        c.eqI(g->toImplementation().size(), N + 1, "grid size");
        for (size_t i = 0; i < N; i++)
        {
            c.eq(g->getShotStartTime(i), t[i], "shot start");
            c.eq(g->getShotEndTime(i), t[i + 1], "shot end");
            c.eq(g->getShotDuration(i), t[i + 1] - t[i], "shot duration");
        }
        c.eq(g->getTimeHorizon(), T, "horizon");
        c.eq(g->getOptimizedTimeHorizon(), t[N], "end of the grid");
        c.step(1);
    }
    typedef ControlVector<2> V;
    bool lin = c.flip();
    std::shared_ptr<SplinerBase<V>> sp;
    if (lin)
        sp.reset(new LinearSpliner<V>(g));
    else
        sp.reset(new ZeroOrderHoldSpliner<V>(g));
    ControlVectorArray<2> q(N + 1);
    for (int round = 0; round < 2; round++)
    {
        for (size_t i = 0; i <= N; i++)
            q[i] << 0.5 * i - round, 1.0 / (i + 1) + round;
        sp->computeSpline(q.toImplementation());
        for (size_t k = 0; k < N; k++)
            for (double r : {0.0, 0.3, 1.0})
            {
                double h = t[k + 1] - t[k], time = t[k] + r * h;
                Eigen::Vector2d want = q[k], dt(0, 0), dh(0, 0);
                Eigen::Matrix2d d0 = Eigen::Matrix2d::Identity(), d1 = Eigen::Matrix2d::Zero();
                if (lin)
                {
                    want = (1 - r) * q[k] + r * q[k + 1];
                    dt = (q[k + 1] - q[k]) / h;
                    dh = r * (q[k] - q[k + 1]) / h;
                    d0 *= 1 - r;
                    d1 = r * Eigen::Matrix2d::Identity();
                }
                c.eqM(sp->evalSpline(time, k), want, "spline value");
                c.eqM(sp->splineDerivative_t(time, k), dt, "spline time derivative");
                c.eqM(sp->splineDerivative_h_i(time, k), dh, "spline duration derivative");
                c.eqM(sp->splineDerivative_q_i(time, k), d0, "spline derivative at the first node");
                c.eqM(sp->splineDerivative_q_iplus1(time, k), d1, "spline derivative at the second node");
                ControllerDms<2, 2> ctrl(sp, k);
                V u;
                ctrl.computeControl(StateVector<2>::Zero(), time, u);
                c.eqM(u, want, "shot controller");
                c.eqM(ctrl.getDerivativeU0(StateVector<2>::Zero(), time), d0, "shot controller derivative");
                c.eqM(ctrl.getDerivativeUf(StateVector<2>::Zero(), time), d1, "shot controller derivative");
            }
    }
}

// ---- sensitivity integrator used on its own, repeatedly
MC_SUITE(sensitivity_integrator, "2 states, 1 input: integrator x 1..3 steps x 2 start states x re-integration; state, sensitivities, cost and cost sensitivities")
{
    const int NX = 2, NU = 1;
    Cfg f{1, 1.0, 0.25, true, true, c.flip(), false, false, false};
    const int steps = 1 + c.choose(3);
    f.T = 0.25 * steps;
    Ref<NX, NU> ref(f);
    auto grid = std::make_shared<ct::optcon::tpl::TimeGrid<double>>(1, f.T);
    auto sp = std::make_shared<LinearSpliner<ControlVector<NU>>>(grid);
    auto sys = std::make_shared<Sys<NX, NU>>();
    sys->setController(std::make_shared<ControllerDms<NX, NU>>(sp, 0));
    SensitivityIntegratorCT<NX, NU> I(sys, f.rk4 ? EULERCT : RK4CT);
    I.initializeDerived(f.rk4 ? RK4CT : EULERCT);
    I.setLinearSystem(std::make_shared<Lin<NX, NU>>());
    I.setCostFunction(std::make_shared<Cost<NX, NU>>());
    for (int round = 0; round < 3; round++)
    {
        int k = c.choose(2);
        DV w{0.3 - 0.5 * k, 0.4 + 0.2 * k, -0.2 + k, 0, 0, 0.6 - 0.3 * k};
        ref.w = w;
        ControlVectorArray<NU> q(2);
        q[0](0) = w[2];
        q[1](0) = w[5];
        sp->computeSpline(q.toImplementation());
        StateVector<NX> x;
        x << w[0], w[1];
        ZV zw = ref.zw();
        Z xe[NX], l;
        ref.shot(zw, 0, xe, l);
        if (c.flip())
        {
            StateVectorArray<NX> xs;
            ct::core::TimeArray ts;
            I.integrate(x, 0.0, steps, 0.25, xs, ts);
            c.eqI(xs.size(), steps + 1, "trajectory length");
            c.eqI(ts.size(), steps + 1, "time trajectory length");
            c.eqM(xs.back(), x, "last point");
            c.eq(ts.back(), f.T, "last time");
        }
        else
            I.integrate(x, 0.0, steps, 0.25);
        for (int i = 0; i < NX; i++)
            c.eq(x(i), xe[i].real(), "integrated state");
        double cost = 0;
        I.integrateCost(cost, 0.0, steps, 0.25);
        c.eq(cost, l.real(), "integrated cost");
        I.linearize();
        StateMatrix<NX> A;
        StateControlMatrix<NX, NU> B, Bf;
        I.integrateSensitivityDX0(A, 0.0, steps, 0.25);
        I.integrateSensitivityDU0(B, 0.0, steps, 0.25);
        I.integrateSensitivityDUf(Bf, 0.0, steps, 0.25);
        StateVector<NX> cx;
        ControlVector<NU> cu, cf;
        I.integrateCostSensitivityDX0(cx, 0.0, steps, 0.25);
        I.integrateCostSensitivityDU0(cu, 0.0, steps, 0.25);
        I.integrateCostSensitivityDUf(cf, 0.0, steps, 0.25);
        for (int v = 0; v < 4; v++)
        {
            const int pos[] = {0, 1, 2, 5};
            ZV z = ref.zw();
            z[pos[v]] += Z(0, H);
            ref.shot(z, 0, xe, l);
            for (int i = 0; i < NX; i++)
                c.eq(v < 2 ? A(i, v) : v == 2 ? B(i, 0) : Bf(i, 0), xe[i].imag() / H, "state sensitivity");
            c.eq(v < 2 ? cx(v) : v == 2 ? cu(0) : cf(0), l.imag() / H, "cost sensitivity");
        }
        c.step(1);
        c.state(mc::mix(mc::hd(x(0)), round));
    }
}

// ---- complete solves: the solution is feasible and stationary for the current problem data, also after changing them
template <int NX, int NU>
static void solves(mc::Ctx& c, int len)
{
    Cfg f{size_t(1 + c.choose(3)), 1.0, 0.125, c.flip(), c.flip(), true, false, false, false};
    DmsSettings s = Real<NX, NU>::settings(f);
    s.solverSettings_.solverType_ = NlpSolverType::IPOPT;
    s.solverSettings_.ipoptSettings_.printLevel_ = 0;
    s.solverSettings_.ipoptSettings_.tol_ = 1e-9;
    Ref<NX, NU> ref(f);
    ref.x0 = startState<NX, NU>(1);
    auto sv = [](const DV& v) { return StateVector<NX>(Eigen::Map<const Eigen::VectorXd>(v.data(), NX)); };
    ContinuousOptConProblem<NX, NU> ocp(std::make_shared<Sys<NX, NU>>(), std::make_shared<Cost<NX, NU>>(), std::make_shared<Lin<NX, NU>>());
    ocp.setInitialState(sv(ref.x0));
    ocp.setTimeHorizon(f.T);
    mc::Quiet q;
    DmsSolver<NX, NU> solver(ocp, s);
    DmsPolicy<NX, NU> guess;
    guess.xSolution_ = StateVectorArray<NX>(f.N + 1, StateVector<NX>::Zero());
    guess.uSolution_ = ControlVectorArray<NU>(f.N + 1, ControlVector<NU>::Zero());
    solver.setInitialGuess(guess);
    for (int i = 0; i <= len; i++)
    {
        if (i)
            switch (c.choose(3))
            {
                case 0:
                    ref.x0 = startState<NX, NU>((i + 1) % 3);
                    solver.changeInitialState(sv(ref.x0));
                    break;
                case 1:
                    ref.T = 1.0 + 0.35 * i;
                    solver.changeTimeHorizon(ref.T);
                    break;
                default:
                    for (auto& u : guess.uSolution_)
                        u.setConstant(0.1);
                    solver.setInitialGuess(guess);
            }
        c.check(solver.solve(), "solve succeeds");
        const DmsPolicy<NX, NU>& sol = solver.getSolution();
        c.eqI(sol.xSolution_.size(), f.N + 1, "states");
        c.eqI(sol.uSolution_.size(), f.N + 1, "inputs");
        c.eqI(sol.tSolution_.size(), f.N + 1, "times");
        c.eq(solver.getTimeHorizon(), ref.T, "time horizon");
        ZV w((f.N + 1) * (NX + NU));
        for (size_t n = 0; n <= f.N; n++)
        {
            c.eq(sol.tSolution_[n], ref.tn(n), "time of a node");
            for (int k = 0; k < NX; k++)
                w[n * (NX + NU) + k] = sol.xSolution_[n](k);
            for (int k = 0; k < NU; k++)
                w[n * (NX + NU) + NX + k] = sol.uSolution_[n](k);
        }
        ZV r = ref.constraints(w);
        for (auto& v : r)
            c.eq(v.real(), 0.0, "solution satisfies initial state and dynamics", 1e-6);
        // reduced gradient: derivative of the cost with respect to every control, the states following the dynamics
        for (size_t n = 0; n <= f.N; n++)
            for (int k = 0; k < NU; k++)
            {
                ZV z = w;
                z[n * (NX + NU) + NX + k] += Z(0, H);
                for (int j = 0; j < NX; j++)
                    z[j] = ref.x0[j];
                for (size_t m = 0; m < f.N; m++)
                {
                    Z x[NX], l;
                    ref.shot(z, m, x, l);
                    for (int j = 0; j < NX; j++)
                        z[(m + 1) * (NX + NU) + j] = x[j];
                }
                c.eq(ref.cost(z).imag() / H, 0.0, "solution is stationary", 1e-4);
            }
        auto xt = solver.getStateTrajectory();
        auto ut = solver.getControlTrajectory();
        for (size_t n = 0; n <= f.N; n++)
        {
            c.eqM(xt.getDataArray()[n], sol.xSolution_[n], "state trajectory");
            c.eqM(ut.getDataArray()[n], sol.uSolution_[n], "control trajectory");
            c.eq(xt.getTimeArray()[n], ref.tn(n), "trajectory time");
            c.eq(ut.getTimeArray()[n], ref.tn(n), "trajectory time");
            c.eq(solver.getTimeArray()[n], ref.tn(n), "time array");
        }
        c.step(1);
        c.state(mc::mix(mc::hd(ref.T), mc::hd(ref.x0[0])));
    }
}
MC_SUITE(solves, "2 states, 1 input, 1..3 shots x spline x cost evaluation: solve, then all histories of 1 (3 thorough) changes of initial state, horizon or guess, each followed by a solve")
{
    solves<2, 1>(c, c.thorough ? 3 : 1);
}
