// P07: clones of constraints and constraint containers
// MC_LIBS: -lipopt -llapack -lblas
#include "mc.h"
#include "optcon_constraints.h"
#include "mc_file.h"
#include "clone_obj.h"
typedef ConstraintContainerAnalytical<NX, NU> CC;
static const X P0 = mkx(0.5, -1, 2), P1 = mkx(-1.5, 0.25, 1);
static const U Q0 = mku(0.75, -2), Q1 = mku(1, 3);
static void addI(Obs& o, const Eigen::VectorXi& v)
{
    o.push_back(v.size());
    for (int i = 0; i < v.size(); i++)
        o.push_back(v(i));
}
struct OCon : Obj
{
    std::shared_ptr<CB> p;
    OCon(int k)
    {
        if (k >= 0)
            p = makeCon(k).impl, p->setName("a");
    }
    std::shared_ptr<Obj> dup() override
    {
        auto n = std::make_shared<OCon>(-1);
        n->p.reset(p->clone());
        return n;
    }
    int nMut() override { return 2; }
    bool mutate(int i) override
    {
        if (i == 0)
            p->setName("b");
        else if (auto d = std::dynamic_pointer_cast<DenseCon>(p))
            d->k += 1;
        else
            return false;
        return true;
    }
    void observe(Obs& o) override
    {
        std::string s;
        p->getName(s);
        o.push_back(s == "a" ? 1 : s == "b" ? 2 : 3);
        o.push_back(p->getConstraintSize());
        add(o, p->getLowerBound());
        add(o, p->getUpperBound());
        for (int i = 0; i < 2; i++)
        {
            X x = i ? P1 : P0;
            U u = i ? Q1 : Q0;
            double t = i ? 0.5 : 2.0;
            add(o, p->evaluate(x, u, t));
            add(o, p->jacobianState(x, u, t));
            add(o, p->jacobianInput(x, u, t));
            o.push_back(p->getNumNonZerosJacobianState());
            o.push_back(p->getNumNonZerosJacobianInput());
            add(o, p->jacobianStateSparse(x, u, t));
            add(o, p->jacobianInputSparse(x, u, t));
            Eigen::VectorXi r, k;
            if (p->getNumNonZerosJacobianState())
            {
                p->sparsityPatternState(r, k);
                addI(o, r);
                addI(o, k);
            }
            if (p->getNumNonZerosJacobianInput())
            {
                p->sparsityPatternInput(r, k);
                addI(o, r);
                addI(o, k);
            }
        }
    }
};
MC_SUITE(constraints, "every constraint kind; up to 2 operations before and 2 after cloning")
{
    int k = c.choose(NCON);
    c.log() << "con" << k << " ";
    cloneRun(c, [=]() { return std::shared_ptr<Obj>(new OCon(k)); }, 2, 2);
}
static void obsContainer(Obs& o, LinearConstraintContainer<NX, NU>& p)
{
    o.push_back(p.getIntermediateConstraintsCount());
    o.push_back(p.getTerminalConstraintsCount());
    o.push_back(p.getConstraintsCount());
    o.push_back(p.isInitialized());
    if (!p.isInitialized())
        return;
    Eigen::VectorXi r, k;
    if (p.getIntermediateConstraintsCount())
    {
        add(o, p.evaluateIntermediate());
        add(o, p.getLowerBoundsIntermediate());
        add(o, p.getUpperBoundsIntermediate());
        add(o, p.getLowerBoundsViolationIntermediate());
        add(o, p.getUpperBoundsViolationIntermediate());
        add(o, p.getTotalBoundsViolationIntermediate());
        add(o, p.jacobianStateIntermediate());
        add(o, p.jacobianInputIntermediate());
        add(o, p.jacobianStateSparseIntermediate());
        add(o, p.jacobianInputSparseIntermediate());
        p.sparsityPatternStateIntermediate(r, k);
        addI(o, r), addI(o, k);
        p.sparsityPatternInputIntermediate(r, k);
        addI(o, r), addI(o, k);
    }
    if (p.getTerminalConstraintsCount())
    {
        add(o, p.evaluateTerminal());
        add(o, p.getLowerBoundsTerminal());
        add(o, p.getUpperBoundsTerminal());
        add(o, p.getTotalBoundsViolationTerminal());
        add(o, p.jacobianStateTerminal());
        add(o, p.jacobianInputTerminal());
        add(o, p.jacobianStateSparseTerminal());
        add(o, p.jacobianInputSparseTerminal());
        p.sparsityPatternStateTerminal(r, k);
        addI(o, r), addI(o, k);
        p.sparsityPatternInputTerminal(r, k);
        addI(o, r), addI(o, k);
    }
}
struct OCC : Obj
{
    std::shared_ptr<CC> p;
    std::shared_ptr<DenseCon> dense;
    OCC(int k)
    {
        if (k < 0)
            return;
        p.reset(new CC());
        p->addIntermediateConstraint(makeCon(k).impl, false);
        dense.reset(new DenseCon(2.0));
        p->addIntermediateConstraint(dense, false);
        p->addTerminalConstraint(makeCon(k == 4 ? 0 : 4).impl, false);
        p->addTerminalConstraint(dense, false);
        p->initialize();
        p->setCurrentStateAndControl(mkx(0, 1, 0), mku(1, 0), 0.1);
    }
    std::shared_ptr<Obj> dup() override
    {
        auto n = std::make_shared<OCC>(-1);
        n->p.reset(p->clone());
        return n;
    }
    int nMut() override { return 5; }
    bool mutate(int i) override
    {
        switch (i)
        {
            case 0: p->setCurrentStateAndControl(P0, Q0, 0.5); break;
            case 1: p->setCurrentStateAndControl(P1, Q1, 1.5); break;
            case 2:
                if (!dense)
                    return false;
                dense->k += 1;
                break;
            case 3:
                p->addIntermediateConstraint(makeCon(3).impl, false);
                p->initialize();
                break;
            case 4:
                p->addTerminalConstraint(makeCon(7).impl, false);
                p->initialize();
                break;
        }
        return true;
    }
    void observe(Obs& o) override { obsContainer(o, *p); }
};
MC_SUITE(container, "containers with each constraint kind plus a parameterised one; up to 1 (quick) / 2 (thorough) operations before and 2 / 3 after cloning")
{
    int k = c.choose(NCON);
    c.log() << "con" << k << " ";
    cloneRun(c, [=]() { return std::shared_ptr<Obj>(new OCC(k)); }, c.thorough ? 2 : 1, c.thorough ? 3 : 2);
}
struct OSCC : Obj
{
    typedef SwitchedLinearConstraintContainer<NX, NU> T;
    std::shared_ptr<T> p;
    std::vector<std::shared_ptr<CC>> in;
    OSCC(int k)
    {
        if (k < 0)
            return;
        Switched<std::shared_ptr<LinearConstraintContainer<NX, NU>>> s;
        ContinuousModeSequence seq(0.0);
        for (int i = 0; i < 2; i++)
        {
            in.emplace_back(new CC());
            in[i]->addIntermediateConstraint(makeCon(i ? 6 : k).impl, false);
            in[i]->addTerminalConstraint(makeCon(i ? k : 0).impl, false);
            in[i]->initialize();
            s.push_back(in[i]);
            seq.addPhase(i, 1.0);
        }
        p.reset(new T(s, seq));
        p->initialize();
        p->setCurrentStateAndControl(mkx(0, 1, 0), mku(1, 0), 0.1);
    }
    std::shared_ptr<Obj> dup() override
    {
        auto n = std::make_shared<OSCC>(-1);
        n->p.reset(p->clone());
        return n;
    }
    int nMut() override { return 3; }
    bool mutate(int i) override
    {
        switch (i)
        {
            case 0: p->setCurrentStateAndControl(P0, Q0, 0.5); break;
            case 1: p->setCurrentStateAndControl(P1, Q1, 1.5); break;
            case 2:
                if (in.empty())
                    return false;
                in[1]->addIntermediateConstraint(makeCon(3).impl, false);
                in[1]->initialize();
                p->initialize();
                p->setCurrentStateAndControl(P1, Q1, 1.5);
                break;
        }
        return true;
    }
    void observe(Obs& o) override { obsContainer(o, *p); }
};
MC_SUITE(switched_container, "switched containers over 2 phases; up to 2 operations before and 2 after cloning")
{
    int k = c.choose(NCON);
    c.log() << "con" << k << " ";
    cloneRun(c, [=]() { return std::shared_ptr<Obj>(new OSCC(k)); }, 2, c.thorough ? 3 : 2);
}
