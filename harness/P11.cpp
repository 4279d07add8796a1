// P11: constraint containers
#include "mc.h"
#include "optcon_constraints.h"

static void containerRun(mc::Ctx& c, int maxN, bool reinit)
{
    ConstraintContainerAnalytical<NX, NU> con;
    std::vector<Ref> inter, term;
    int n = c.choose(maxN + 1);
    auto pts = points();
    bool dirtyI = true, dirtyT = true;  // nothing initialised yet
    for (int i = 0; i < n; i++)
    {
        Ref r = makeCon(c.choose(NCON));
        bool t = c.flip();
        c.log() << (t ? "addTerminal(" : "addIntermediate(") << r.name << ") ";
        if (t)
        {
            con.addTerminalConstraint(r.impl, false);
            term.push_back(r);
            dirtyT = true;
        }
        else
        {
            con.addIntermediateConstraint(r.impl, false);
            inter.push_back(r);
            dirtyI = true;
        }
        c.step();
        if (reinit && c.flip())
        {
            con.initialize();
            dirtyI = dirtyT = false;
            c.log() << "initialize ";
        }
        c.check(con.isInitialized() == (!dirtyI && !dirtyT), "isInitialized");
    }
    Point p0 = pts[2];
    con.setCurrentStateAndControl(p0.x, p0.u, p0.t);
    if (dirtyI || dirtyT)
    {
        // stale container: everything belonging to the stale side is rejected, the other side still answers
        Eigen::VectorXi r, k;
        if (dirtyI)
        {
            c.throws([&]() { con.evaluateIntermediate(); }, "evaluateIntermediate before initialize");
            c.throws([&]() { con.jacobianStateIntermediate(); }, "jacobianStateIntermediate before initialize");
            c.throws([&]() { con.jacobianInputIntermediate(); }, "jacobianInputIntermediate before initialize");
            c.throws([&]() { con.jacobianStateSparseIntermediate(); }, "jacobianStateSparseIntermediate before initialize");
            c.throws([&]() { con.jacobianInputSparseIntermediate(); }, "jacobianInputSparseIntermediate before initialize");
            c.throws([&]() { con.sparsityPatternStateIntermediate(r, k); }, "sparsityPatternStateIntermediate before initialize");
            c.throws([&]() { con.sparsityPatternInputIntermediate(r, k); }, "sparsityPatternInputIntermediate before initialize");
        }
        if (dirtyT)
        {
            c.throws([&]() { con.evaluateTerminal(); }, "evaluateTerminal before initialize");
            c.throws([&]() { con.jacobianStateTerminal(); }, "jacobianStateTerminal before initialize");
            c.throws([&]() { con.jacobianInputTerminal(); }, "jacobianInputTerminal before initialize");
            c.throws([&]() { con.jacobianStateSparseTerminal(); }, "jacobianStateSparseTerminal before initialize");
            c.throws([&]() { con.jacobianInputSparseTerminal(); }, "jacobianInputSparseTerminal before initialize");
            c.throws([&]() { con.sparsityPatternStateTerminal(r, k); }, "sparsityPatternStateTerminal before initialize");
            c.throws([&]() { con.sparsityPatternInputTerminal(r, k); }, "sparsityPatternInputTerminal before initialize");
        }
        if (!dirtyI)
            compareContainer(c, con, inter, false, p0.x, p0.u, p0.t);
        if (!dirtyT)
            compareContainer(c, con, term, true, p0.x, p0.u, p0.t);
        con.initialize();
        c.check(con.isInitialized(), "isInitialized after initialize");
    }
    Point p = pts[c.choose(pts.size())];
    con.setCurrentStateAndControl(p.x, p.u, p.t);
    compareContainer(c, con, inter, false, p.x, p.u, p.t);
    compareContainer(c, con, term, true, p.x, p.u, p.t);
    c.eqI(con.getConstraintsCount(), con.getIntermediateConstraintsCount() + con.getTerminalConstraintsCount(), "total count");
    c.eqI(con.getJacNonZeroCount(), con.getJacobianStateNonZeroCountIntermediate() + con.getJacobianInputNonZeroCountIntermediate() + con.getJacobianStateNonZeroCountTerminal() + con.getJacobianInputNonZeroCountTerminal(), "total nnz");
    // evaluating at another point and coming back gives the same answer
    con.setCurrentStateAndControl(p0.x, p0.u, p0.t);
    if (!inter.empty())
        con.evaluateIntermediate();
    con.setCurrentStateAndControl(p.x, p.u, p.t);
    compareContainer(c, con, inter, false, p.x, p.u, p.t);
    compareContainer(c, con, term, true, p.x, p.u, p.t);
    c.state(c.hist);
}
MC_SUITE(add_sequences, "all add sequences of up to 2 constraints (8 types, intermediate/terminal) with optional initialisation after each, 3 points")
{
    containerRun(c, 2, true);
}
MC_SUITE(add_sequences3, "all add sequences of 3 constraints, 3 points")
{
    containerRun(c, c.thorough ? 4 : 3, false);
}
// box constraints: every sparsity mask, bound tables, malformed input
template <class CON, int DIM>
static void boxRun(mc::Ctx& c)
{
    static const double LB[] = {-1, 0, 0.5}, UB[] = {-2, 0, 2};
    int mask = c.choose(1 << DIM);
    bool full = c.flip();
    Eigen::VectorXi sp(DIM);
    int n = 0;
    for (int i = 0; i < DIM; i++)
        n += sp(i) = (mask >> i) & 1;
    if (full)
    {
        n = DIM;
        if (mask)
            c.prune();
    }
    int sizeErr = full ? 0 : c.choose(3);  // 0 ok, 1: lb too long, 2: ub too short
    if (sizeErr == 2 && n == 0)
        c.prune();
    Vd lb(n), ub(n);
    bool bad = sizeErr != 0;
    for (int i = 0; i < n; i++)
    {
        lb(i) = LB[c.choose(3)];
        ub(i) = UB[c.choose(3)];
        bad |= lb(i) > ub(i);
    }
    Vd l2 = lb, u2 = ub;
    if (sizeErr == 1)
    {
        l2.conservativeResize(n + 1);
        l2(n) = -5;
    }
    if (sizeErr == 2)
        u2.conservativeResize(n - 1);
    std::shared_ptr<CON> con;
    auto make = [&]() {
        if (full)
            con.reset(new CON(Eigen::Matrix<double, DIM, 1>(l2), Eigen::Matrix<double, DIM, 1>(u2)));
        else
            con.reset(new CON(l2, u2, sp));
    };
    c.step();
    if (bad)
    {
        c.throws(make, "malformed bounds");
        c.state(c.hist);
        return;
    }
    make();
    c.eqI(con->getConstraintSize(), n, "size");
    c.eqM(con->getLowerBound(), lb, "lower bound");
    c.eqM(con->getUpperBound(), ub, "upper bound");
    X x = mkx(1.25, -0.5, 3);
    U u = mku(0.75, -2);
    Vd z = DIM == (int)NX ? Vd(x) : Vd(u);
    Vd val = con->evaluate(x, u, 0.5);
    Md jx = con->jacobianState(x, u, 0.5), ju = con->jacobianInput(x, u, 0.5);
    Md J = Md::Zero(n, DIM);
    int row = 0;
    Vd want(n);
    for (int i = 0; i < DIM; i++)
        if (full || sp(i))
        {
            want(row) = z(i);
            J(row++, i) = 1;
        }
    c.eqM(val, want, "box value");
    if (DIM == (int)NX)
    {
        c.eqM(jx, J, "box state jacobian");
        c.eqM(ju, Md(Md::Zero(n, NU)), "box input jacobian");
    }
    else
    {
        c.eqM(ju, J, "box input jacobian");
        c.eqM(jx, Md(Md::Zero(n, NX)), "box state jacobian");
    }
    std::shared_ptr<CB> cl(con->clone());
    c.eqM(cl->evaluate(x, u, 0.5), want, "clone value");
    c.eqM(cl->getLowerBound(), lb, "clone lower bound");
    Eigen::VectorXi r, k;
    if (DIM == (int)NX)
    {
        c.eqI(con->getNumNonZerosJacobianState(), n, "nnz state");
        c.eqI(con->getNumNonZerosJacobianInput(), 0, "nnz input");
        con->sparsityPatternState(r, k);
        checkSparse(c, con->jacobianStateSparse(x, u, 0.5), r, k, n, J, "box sparse state");
    }
    else
    {
        c.eqI(con->getNumNonZerosJacobianInput(), n, "nnz input");
        c.eqI(con->getNumNonZerosJacobianState(), 0, "nnz state");
        con->sparsityPatternInput(r, k);
        checkSparse(c, con->jacobianInputSparse(x, u, 0.5), r, k, n, J, "box sparse input");
    }
    c.state(c.hist);
}
MC_SUITE(state_boxes, "all sparsity masks of 3 states x bound tables (3x3 per entry, lb>ub included) x size errors")
{
    boxRun<StateConstraint<NX, NU>, NX>(c);
}
MC_SUITE(input_boxes, "all sparsity masks of 2 inputs x bound tables x size errors")
{
    boxRun<ControlInputConstraint<NX, NU>, NU>(c);
}
// single constraints: sparse representation reproduces the dense one
MC_SUITE(single_constraints, "8 constraint types x 3 points x clone")
{
    Ref r = makeCon(c.choose(NCON));
    auto pts = points();
    Point p = pts[c.choose(3)];
    std::shared_ptr<CB> k = r.impl;
    if (c.flip())
        k.reset(r.impl->clone());
    k->setName("abc");
    std::string nm;
    k->getName(nm);
    c.check(nm == "abc", "name");
    c.eqM(k->evaluate(p.x, p.u, p.t), r.f(p.x, p.u, p.t), "value");
    c.eqM(k->jacobianState(p.x, p.u, p.t), r.jx(p.x, p.u, p.t), "state jacobian");
    c.eqM(k->jacobianInput(p.x, p.u, p.t), r.ju(p.x, p.u, p.t), "input jacobian");
    c.eqM(k->getLowerBound(), r.lb, "lb");
    c.eqM(k->getUpperBound(), r.ub, "ub");
    Eigen::VectorXi a, b;
    if (r.nzx)
    {
        k->sparsityPatternState(a, b);
        checkSparse(c, k->jacobianStateSparse(p.x, p.u, p.t), a, b, r.nzx, r.jx(p.x, p.u, p.t), "sparse state");
    }
    if (r.nzu)
    {
        k->sparsityPatternInput(a, b);
        checkSparse(c, k->jacobianInputSparse(p.x, p.u, p.t), a, b, r.nzu, r.ju(p.x, p.u, p.t), "sparse input");
    }
    c.eqI(k->getNumNonZerosJacobianState(), r.nzx, "nnz state");
    c.eqI(k->getNumNonZerosJacobianInput(), r.nzu, "nnz input");
    c.step();
    c.state(c.hist);
}
