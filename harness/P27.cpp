// P27: optimal control problems and the hand-over of their parts to a solver
// MC_LIBS: -lipopt -llapack -lblas
#include <ct/optcon/optcon.h>
#include "mc.h"
using namespace ct::core;
using namespace ct::optcon;
static const size_t NX = 2, NU = 1;
typedef StateVector<NX> X;
typedef ControlVector<NU> U;
// ---- parts, each recognisable by a parameter
struct CSys : public ControlledSystem<NX, NU>
{
    double a;
    CSys(double q) : a(q) {}
    CSys* clone() const override { return new CSys(*this); }
    void computeControlledDynamics(const X& x, const double& t, const U& u, X& d) override { d << x(1), a * x(0) + u(0); }
};
struct DSys : public DiscreteControlledSystem<NX, NU>
{
    double a;
    DSys(double q) : a(q) {}
    DSys* clone() const override { return new DSys(*this); }
    void propagateControlledDynamics(const X& x, const int n, const U& u, X& d) override { d << x(1), a * x(0) + u(0); }
};
struct Cont
{
    typedef ContinuousOptConProblem<NX, NU> Problem;
    typedef CSys Sys;
    typedef LTISystem<NX, NU> Lin;
    static const bool continuous = true;
    static std::shared_ptr<LinearSystem<NX, NU>> lin() { return std::make_shared<LTISystem<NX, NU>>(StateMatrix<NX>::Identity(), StateControlMatrix<NX, NU>::Ones()); }
    static double gain(Problem& p)
    {
        X x;
        x << 0.3, -0.2;
        U u;
        u << 0.1;
        return p.getLinearSystem()->getDerivativeState(x, u, 0.0)(1, 0);
    }
};
struct DLin : public DiscreteLinearSystem<NX, NU>
{
    DLin* clone() const override { return new DLin(*this); }
    void getAandB(const X& x, const U& u, const X& xn, const int n, size_t m, StateMatrix<NX>& A, StateControlMatrix<NX, NU>& B) override
    {
        A.setIdentity();
        B.setOnes();
    }
};
struct Disc
{
    typedef DiscreteOptConProblem<NX, NU> Problem;
    typedef DSys Sys;
    static const bool continuous = false;
    static std::shared_ptr<DiscreteLinearSystem<NX, NU>> lin() { return std::make_shared<DLin>(); }
    static double gain(Problem& p)
    {
        X x, xn;
        x << 0.3, -0.2;
        xn.setZero();
        U u;
        u << 0.1;
        StateMatrix<NX> A;
        StateControlMatrix<NX, NU> B;
        p.getLinearSystem()->getAandB(x, u, xn, 0, 1, A, B);
        return A(1, 0);
    }
};
typedef std::shared_ptr<CostFunctionQuadratic<NX, NU>> CostP;
typedef std::shared_ptr<LinearConstraintContainer<NX, NU>> ConP;
static CostP cost() { return CostP(new CostFunctionAnalytical<NX, NU>()); }
static ConP box()
{
    auto k = std::make_shared<ConstraintContainerAnalytical<NX, NU>>();
    U l, h;
    l << -1;
    h << 1;
    k->addIntermediateConstraint(std::make_shared<ControlInputConstraint<NX, NU>>(l, h), false);
    return k;
}
// ---- reference: the parts last given
template <class K>
struct Model
{
    typedef typename K::Problem P;
    typename P::DynamicsPtr_t dyn;
    typename P::LinearPtr_t lin;  // null: numerical linearisation of linOf
    double linOf = 0;
    bool linKnown = false, linDefault = false;
    CostP cost;
    ConP con[3];
    bool initialised[3] = {false, false, false};
    double tf = 0;
    X x0 = X::Zero();
};
template <class K>
static void build(mc::Ctx& c, std::unique_ptr<typename K::Problem>& p, Model<K>& m)
{
    typedef typename K::Problem P;
    int ctor = c.choose(5);  // default, 4 constructors
    bool withLin = ctor && c.flip();
    double a = c.choose(2) ? 2.0 : -3.0;
    if (ctor)
    {
        m.dyn = std::make_shared<typename K::Sys>(a);
        m.cost = cost();
        if (withLin)
            m.lin = K::lin();
        else
        {
            m.linDefault = true;
            m.linOf = a;
        }
        m.linKnown = true;
    }
    if (ctor >= 3)
        for (int i = 0; i < 3; i++)
            if (c.flip())
                m.con[i] = box();
    if (ctor == 2 || ctor == 4)
    {
        m.tf = c.choose(2) ? 3 : 0;
        m.x0 << 1.5, -2;
    }
    c.log() << "ctor " << ctor << " lin " << withLin << "; ";
    switch (ctor)
    {
        case 0:
            p.reset(new P());
            break;
        case 1:
            p.reset(new P(m.dyn, m.cost, m.lin));
            break;
        case 2:
            p.reset(new P(m.tf, m.x0, m.dyn, m.cost, m.lin));
            break;
        case 3:
            p.reset(new P(m.dyn, m.cost, m.con[0], m.con[1], m.con[2], m.lin));
            break;
        default:
            p.reset(new P(m.tf, m.x0, m.dyn, m.cost, m.con[0], m.con[1], m.con[2], m.lin));
    }
}
template <class K>
static void compare(mc::Ctx& c, typename K::Problem& p, const Model<K>& m)
{
    c.check(p.getNonlinearSystem() == m.dyn, "nonlinear system is not the one given last");
    c.check(p.getCostFunction() == m.cost, "cost function is not the one given last");
    if (m.linDefault)
    {
        c.check(p.getLinearSystem() != nullptr, "no default linearisation");
        c.eq(K::gain(p), m.linOf, "default linearisation", 1e-5);
    }
    else
        c.check(p.getLinearSystem() == m.lin, "linear system is not the one given last");
    c.check(p.getInputBoxConstraints() == m.con[0], "input box constraints are not those given last");
    c.check(p.getStateBoxConstraints() == m.con[1], "state box constraints are not those given last");
    c.check(p.getGeneralConstraints() == m.con[2], "general constraints are not those given last");
    for (int i = 0; i < 3; i++)
        if (m.initialised[i])
            c.check(m.con[i]->isInitialized(), "constraints given to the problem not initialised");
    c.eq(p.getTimeHorizon(), m.tf, "time horizon", 0);
    c.eqM(p.getInitialState(), m.x0, "initial state", 0);
    bool complete = m.dyn && m.cost && (m.lin || m.linDefault) && m.tf >= 0;
    bool threw = false;
    try
    {
        p.verify();
    } catch (const std::runtime_error&)
    {
        threw = true;
    }
    c.check(threw != complete, complete ? "complete problem refused" : "incomplete problem accepted");
}
template <class K>
static void edit(mc::Ctx& c, typename K::Problem& p, Model<K>& m)
{
    int op = c.choose(8);
    c.log() << "op " << op << "; ";
    c.step();
    switch (op)
    {
        case 0:
            m.dyn = c.flip() ? nullptr : std::make_shared<typename K::Sys>(5.0);
            p.setNonlinearSystem(m.dyn);
            break;
        case 1:
            m.lin = c.flip() ? nullptr : K::lin();
            m.linDefault = false;
            p.setLinearSystem(m.lin);
            break;
        case 2:
            m.cost = c.flip() ? nullptr : cost();
            p.setCostFunction(m.cost);
            break;
        case 3:
        case 4:
        case 5:
        {
            int i = op - 3;
            m.con[i] = box();
            if (c.flip())
                m.con[i]->initialize();
            m.initialised[i] = true;
            if (i == 0)
                p.setInputBoxConstraints(m.con[i]);
            else if (i == 1)
                p.setStateBoxConstraints(m.con[i]);
            else
                p.setGeneralConstraints(m.con[i]);
            break;
        }
        case 6:
            m.tf = c.pick<double>({-1, 0, 4});
            p.setTimeHorizon(m.tf);
            break;
        default:
            m.x0 << 7 + m.x0(0), 0.5;
            p.setInitialState(m.x0);
    }
}
template <class K>
static void histories(mc::Ctx& c)
{
    std::unique_ptr<typename K::Problem> p;
    Model<K> m;
    build<K>(c, p, m);
    compare<K>(c, *p, m);
    int depth = c.thorough ? 3 : 2;
    for (int i = 0; i < depth; i++)
    {
        if (i == depth - 1 && c.flip())
        {
            // a copy is a problem with the same parts
            typename K::Problem q(*p);
            Model<K> mq = m;
            edit<K>(c, q, mq);
            compare<K>(c, q, mq);
        }
        else
            edit<K>(c, *p, m);
        compare<K>(c, *p, m);
        c.state(c.hist);
    }
}
MC_SUITE(problem_cont, "5 constructors x optional parts x all sequences of 2 (quick) / 3 (thorough) edits, copies; continuous time") { histories<Cont>(c); }
MC_SUITE(problem_disc, "5 constructors x optional parts x all sequences of 2 (quick) / 3 (thorough) edits, copies; discrete time") { histories<Disc>(c); }
// ---- hand-over to a solver
struct Settings
{
    void load(const std::string&, bool, const std::string&) {}
};
template <class K, bool CON>
struct Recorder : public OptConSolver<Recorder<K, CON>, StateFeedbackController<NX, NU>, Settings, NX, NU, double, K::continuous>
{
    typedef OptConSolver<Recorder<K, CON>, StateFeedbackController<NX, NU>, Settings, NX, NU, double, K::continuous> Base;
    typedef typename K::Problem P;
    static const std::string SolverName;
    StateFeedbackController<NX, NU> pol;
    TimeArray ta;
    std::vector<typename P::DynamicsPtr_t> d;
    std::vector<typename P::LinearPtr_t> l;
    std::vector<CostP> k;
    std::vector<ConP> con[3];
    std::vector<double> tf;
    std::vector<X> x0;
    void configure(const Settings&) override {}
    bool solve() override { return true; }
    const StateFeedbackController<NX, NU>& getSolution() override { return pol; }
    const StateTrajectory<NX> getStateTrajectory() const override { return StateTrajectory<NX>(); }
    const ControlTrajectory<NU> getControlTrajectory() const override { return ControlTrajectory<NU>(); }
    const TimeArray& getTimeArray() const override { return ta; }
    void setInitialGuess(const StateFeedbackController<NX, NU>&) override {}
    double getTimeHorizon() const override { return tf.back(); }
    void changeTimeHorizon(const double& t) override { tf.push_back(t); }
    void changeInitialState(const X& x) override { x0.push_back(x); }
    void changeCostFunction(const CostP& q) override { k.push_back(q); }
    void changeNonlinearSystem(const typename P::DynamicsPtr_t& q) override { d.push_back(q); }
    void changeLinearSystem(const typename P::LinearPtr_t& q) override { l.push_back(q); }
    void changeInputBoxConstraints(const ConP q) override
    {
        if (!CON)
            Base::changeInputBoxConstraints(q);
        con[0].push_back(q);
    }
    void changeStateBoxConstraints(const ConP q) override
    {
        if (!CON)
            Base::changeStateBoxConstraints(q);
        con[1].push_back(q);
    }
    void changeGeneralConstraints(const ConP q) override
    {
        if (!CON)
            Base::changeGeneralConstraints(q);
        con[2].push_back(q);
    }
    std::vector<typename P::DynamicsPtr_t>& getNonlinearSystemsInstances() override { return d; }
    const std::vector<typename P::DynamicsPtr_t>& getNonlinearSystemsInstances() const override { return d; }
    std::vector<typename P::LinearPtr_t>& getLinearSystemsInstances() override { return l; }
    const std::vector<typename P::LinearPtr_t>& getLinearSystemsInstances() const override { return l; }
    std::vector<CostP>& getCostFunctionInstances() override { return k; }
    const std::vector<CostP>& getCostFunctionInstances() const override { return k; }
};
template <class K, bool CON>
const std::string Recorder<K, CON>::SolverName = "RECORDER";
template <class K, bool CON>
static void handover(mc::Ctx& c)
{
    Recorder<K, CON> r;
    ConP last[3];
    for (int round = 0; round < (c.thorough ? 2 : 1); round++)
    {
        std::unique_ptr<typename K::Problem> p;
        Model<K> m;
        build<K>(c, p, m);
        for (int i = 0; i < (round ? 0 : 2); i++)
            edit<K>(c, *p, m);
        bool complete = m.dyn && m.cost && (m.lin || m.linDefault) && m.tf >= 0;
        bool anyCon = m.con[0] || m.con[1] || m.con[2];
        bool ok = true;
        try
        {
            r.setProblem(*p);
        } catch (const std::runtime_error&)
        {
            ok = false;
        }
        c.step();
        if (!complete)
        {
            c.check(!ok, "solver accepted an incomplete problem");
            c.check(r.d.empty() || r.d.back() != m.dyn || !m.dyn, "solver took over parts of an incomplete problem");
        }
        else if (anyCon && !CON)
            c.check(!ok, "solver without support for constraints silently accepted them");
        else
        {
            c.check(ok, "solver refused a complete problem");
            c.check(!r.d.empty() && r.d.back() == m.dyn, "solver has another nonlinear system than the problem");
            c.check(!r.l.empty() && r.l.back() == p->getLinearSystem(), "solver has another linear system than the problem");
            c.check(!r.k.empty() && r.k.back() == m.cost, "solver has another cost than the problem");
            c.eq(r.tf.back(), m.tf, "horizon handed over", 0);
            c.eqM(r.x0.back(), m.x0, "initial state handed over", 0);
            for (int i = 0; i < 3; i++)
                if (m.con[i])
                    c.check(!r.con[i].empty() && r.con[i].back() == m.con[i], "solver has other constraints than the problem");
                else
                    c.check(r.con[i].empty() || r.con[i].back() == last[i], "solver was given constraints the problem does not have");
        }
        for (int i = 0; i < 3; i++)
            last[i] = r.con[i].empty() ? nullptr : r.con[i].back();
        c.state(c.hist);
        if (!ok)
            break;
    }
}
MC_SUITE(handover_cont, "setProblem of a recording solver with constraints: all constructors, optional parts, two edits (continuous time)") { handover<Cont, true>(c); }
MC_SUITE(handover_disc, "setProblem of a recording solver without constraints: all constructors, optional parts, two edits (discrete time)") { handover<Disc, false>(c); }
