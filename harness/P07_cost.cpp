// P07: clones of cost functions and terms
// MC_LIBS: -lipopt -llapack -lblas
#include "optcon_cost.h"
#include "clone_obj.h"
typedef Eigen::MatrixXd Md;

static void tryAdd(Obs& o, const std::function<Md()>& f)
{
    try
    {
        add(o, f());
    } catch (mc::EigenAssertion&)
    {
        throw;
    } catch (std::exception&)
    {
        o.push_back(-12345);
    }
}
static void obsCost(Obs& o, CostFunctionQuadratic<NX, NU>& f)
{
    Eigen::Matrix<double, NX, 1> x;
    Eigen::Matrix<double, NU, 1> u;
    double t;
    f.getCurrentStateAndControl(x, u, t);
    add(o, x);
    add(o, u);
    o.push_back(t);
    o.push_back(f.evaluateIntermediate());
    o.push_back(f.evaluateTerminal());
    tryAdd(o, [&]() { return Md(f.stateDerivativeIntermediate()); });
    tryAdd(o, [&]() { return Md(f.stateSecondDerivativeIntermediate()); });
    tryAdd(o, [&]() { return Md(f.controlDerivativeIntermediate()); });
    tryAdd(o, [&]() { return Md(f.controlSecondDerivativeIntermediate()); });
    tryAdd(o, [&]() { return Md(f.stateControlDerivativeIntermediate()); });
    tryAdd(o, [&]() { return Md(f.stateDerivativeTerminal()); });
    tryAdd(o, [&]() { return Md(f.stateSecondDerivativeTerminal()); });
    tryAdd(o, [&]() { return Md(f.controlDerivativeTerminal()); });
    tryAdd(o, [&]() { return Md(f.controlSecondDerivativeTerminal()); });
    tryAdd(o, [&]() { return Md(f.stateControlDerivativeTerminal()); });
}
struct OCost : Obj
{
    typedef CostFunctionAnalytical<NX, NU> T;
    std::shared_ptr<T> p;
    std::vector<TermM> in, fin;
    int kind;
    OCost(int k, int act, bool fresh) : kind(k)
    {
        if (!fresh)
            return;
        p.reset(new T());
        for (int i = 0; i < 2; i++)
        {
            TermM m(i ? QUADRATIC : k, i);
            m.act.kind = i ? 0 : act;
            auto a = m.make(), b = m.make();
            a->setName("in" + std::to_string(i));
            b->setName("fin" + std::to_string(i));
            p->addIntermediateTerm(a);
            p->addFinalTerm(b);
            in.push_back(m), fin.push_back(m);
        }
        p->initialize();
    }
    std::shared_ptr<Obj> dup() override
    {
        auto n = std::make_shared<OCost>(kind, 0, false);
        n->p.reset(p->clone());
        n->in = in, n->fin = fin;
        return n;
    }
    int nMut() override { return 9; }
    bool mutate(int i) override
    {
        auto P = pts();
        switch (i)
        {
            case 0: p->setCurrentStateAndControl(P[1].x, P[1].u, P[1].t); break;
            case 1: p->setCurrentStateAndControl(P[2].x, P[2].u, P[2].t); break;
            case 2: p->updateReferenceState(vx(3, 1, -1)); break;
            case 3: p->updateReferenceControl(vu(1, -3)); break;
            case 4: p->updateFinalState(vx(-0.5, 0.25, 2)); break;
            case 5: p->shiftTime(0.5); break;
            case 6: in[0].reweight(*p->getIntermediateTermById(0)); break;
            case 7: fin[1].reweight(*p->getFinalTermByName("fin1")); break;
            case 8:
            {
                TermM m(LINEAR, 1);
                p->addIntermediateTerm(m.make());
                break;
            }
        }
        return true;
    }
    void observe(Obs& o) override
    {
        obsCost(o, *p);
        for (int i = 0; i < 2; i++)
        {
            o.push_back(p->getIntermediateTermById(i)->getName() == "in" + std::to_string(i));
            o.push_back(p->getIntermediateTermByName("in" + std::to_string(i)) == p->getIntermediateTermById(i));
            o.push_back(p->getFinalTermByName("fin" + std::to_string(i)) == p->getFinalTermById(i));
        }
    }
};
MC_SUITE(cost_function, "a cost function with a term of every kind plus a quadratic one (both as intermediate and final terms); 4 activations; up to 2 operations before and 1 (quick) / 2 (thorough) after cloning")
{
    int k = c.choose(NKIND), a = c.pick<int>({0, 1, 2, 4});
    c.log() << kindName[k] << " act " << a << ": ";
    cloneRun(c, [=]() { return std::shared_ptr<Obj>(new OCost(k, a, true)); }, a == 0 || c.thorough ? 2 : 1, a == 0 && c.thorough ? 2 : 1);
}
struct OTerm : Obj
{
    typedef TermBase<NX, NU> T;
    std::shared_ptr<T> p;
    TermM m;
    OTerm(int k, int v, int act, bool fresh) : m(k, v)
    {
        m.act.kind = act;
        if (!fresh)
            return;
        p = m.make();
        p->setName("a");
    }
    std::shared_ptr<Obj> dup() override
    {
        auto n = std::make_shared<OTerm>(m.kind, 0, 0, false);
        n->m = m;
        n->p.reset(p->clone());
        return n;
    }
    int nMut() override { return 6; }
    bool mutate(int i) override
    {
        switch (i)
        {
            case 0: m.reweight(*p); break;
            case 1: p->updateReferenceState(vx(3, 1, -1)); break;
            case 2: p->updateReferenceControl(vu(1, -3)); break;
            case 3: p->setName("b"); break;
            case 4:
                if (m.kind != TRACKING)
                    return false;
                {
                    StateTrajectory<NX> xt;
                    ControlTrajectory<NU> ut;
                    xt.push_back(vx(4, 4, 4), 0.0, true);
                    ut.push_back(vu(5, 5), 0.0, true);
                    static_cast<TermQuadTracking<NX, NU>&>(*p).setStateAndControlReference(xt, ut);
                }
                break;
            case 5:
            {
                ActM a;
                a.kind = 1 + m.act.kind % 4;
                p->setTimeActivation(a.make(), false);
                break;
            }
        }
        return true;
    }
    void observe(Obs& o) override
    {
        o.push_back(p->getName() == "a");
        o.push_back(p->getName() == "b");
        for (auto& q : pts())
        {
            o.push_back(p->isActiveAtTime(q.t));
            if (p->isActiveAtTime(q.t))
                o.push_back(p->computeActivation(q.t));
            o.push_back(p->eval(q.x, q.u, q.t));
            tryAdd(o, [&]() { return Md(p->stateDerivative(q.x, q.u, q.t)); });
            tryAdd(o, [&]() { return Md(p->stateSecondDerivative(q.x, q.u, q.t)); });
            tryAdd(o, [&]() { return Md(p->controlDerivative(q.x, q.u, q.t)); });
            tryAdd(o, [&]() { return Md(p->controlSecondDerivative(q.x, q.u, q.t)); });
            tryAdd(o, [&]() { return Md(p->stateControlDerivative(q.x, q.u, q.t)); });
        }
    }
};
MC_SUITE(terms, "every term kind x 5 activations; up to 2 operations before and 2 (quick) / 3 (thorough) after cloning")
{
    int k = c.choose(NKIND), a = c.choose(5);
    c.log() << kindName[k] << " act " << a << ": ";
    cloneRun(c, [=]() { return std::shared_ptr<Obj>(new OTerm(k, a % 2, a, true)); }, c.thorough ? 2 : 1, a == 0 ? 2 : 1);
}
struct OSimple : Obj
{
    typedef CostFunctionQuadraticSimple<NX, NU> T;
    std::shared_ptr<T> p;
    OSimple(bool fresh)
    {
        if (!fresh)
            return;
        XX Q = XX(vx(1, 2, 3).asDiagonal()), Qf = XX(vx(4, 5, 6).asDiagonal());
        UU R = UU(vu(0.5, 1.5).asDiagonal());
        p.reset(new T(Q, R, vx(1, 0, -1), vu(0.5, 0), vx(2, 2, 2), Qf));
    }
    std::shared_ptr<Obj> dup() override
    {
        auto n = std::make_shared<OSimple>(false);
        n->p.reset(p->clone());
        return n;
    }
    int nMut() override { return 6; }
    bool mutate(int i) override
    {
        auto P = pts();
        switch (i)
        {
            case 0: p->setCurrentStateAndControl(P[1].x, P[1].u, P[1].t); break;
            case 1: p->setCurrentStateAndControl(P[2].x, P[2].u, P[2].t); break;
            case 2: p->updateReferenceState(vx(3, 1, -1)); break;
            case 3: p->updateReferenceControl(vu(1, -3)); break;
            case 4: p->updateFinalState(vx(-0.5, 0.25, 2)); break;
            case 5: p->shiftTime(0.5); break;
        }
        return true;
    }
    void observe(Obs& o) override { obsCost(o, *p); }
};
MC_SUITE(simple_cost, "simple quadratic cost; up to 2 operations before and 2 (quick) / 3 (thorough) after cloning")
{
    cloneRun(c, []() { return std::shared_ptr<Obj>(new OSimple(true)); }, 2, c.thorough ? 3 : 2);
}
