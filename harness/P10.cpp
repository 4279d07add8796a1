// P10: cost functions and terms
// MC_LIBS: -lipopt -llapack -lblas
#include "optcon_cost.h"

typedef CostFunctionAnalytical<NX, NU> Cost;

MC_SUITE(terms, "every term kind x 2 weight sets x 5 activations x intermediate/final/both x 4 points x 2 time shifts; all values and derivatives")
{
    TermM m(c.choose(NKIND), c.choose(2));
    m.act.kind = c.choose(5);
    int where = c.choose(3);
    double shift = c.pick<double>({0.0, 0.6});
    Pt p = pts()[c.choose(4)];
    c.log() << kindName[m.kind] << " act " << m.act.kind << " where " << where << " t " << p.t << " shift " << shift;
    CostM cm;
    Cost f;
    if (where != 1)
        c.eqI(f.addIntermediateTerm(m.make()), 0u, "index of first intermediate term"), cm.inter.push_back(m);
    if (where != 0)
        c.eqI(f.addFinalTerm(m.make()), 0u, "index of first final term"), cm.fin.push_back(m);
    f.initialize();
    compareCost(c, f, cm);
    f.shiftTime(shift);
    f.setCurrentStateAndControl(p.x, p.u, p.t);
    cm.cur = p;
    cm.cur.t += shift;
    compareCost(c, f, cm);
    if (!cm.needsThrow(cm.inter, true))
    {
        // the numerical cross-checks agree and leave no trace
        Jet j = CostM::sum(cm.inter, cm.cur, true);
        if (j.g.head<NX>().norm() > 1e-3)
            c.check(f.stateDerivativeIntermediateTest(), "stateDerivativeIntermediateTest");
        compareCost(c, f, cm);
        if (j.g.tail<NU>().norm() > 1e-3)
            c.check(f.controlDerivativeIntermediateTest(), "controlDerivativeIntermediateTest");
        compareCost(c, f, cm);
    }
}

static void program(mc::Ctx& c, int depth, const std::vector<int>& kinds, bool acts)
{
    CostM m;
    Cost f;
    auto P = pts();
    XV xn[2];
    xn[0] << 3, 1, -1;
    xn[1] << -0.5, 0.25, 2;
    UV un[2];
    un[0] << 1, -3;
    un[1] << 0.5, 0;
    for (int i = 0; i < depth; i++)
    {
        int nk = kinds.size();
        int op = c.choose(2 * nk + 8);
        c.step();
        if (op < 2 * nk)
        {
            TermM t(kinds[op / 2], i % 2);
            t.act.kind = acts ? (i + 1) % 5 : 0;
            auto r = t.make();
            r->setName("t" + std::to_string(i));
            c.log() << "add " << kindName[t.kind] << (op % 2 ? " final " : " intermediate ");
            if (op % 2)
            {
                c.eqI(f.addFinalTerm(r), m.fin.size(), "index of added final term");
                m.fin.push_back(t);
                c.check(f.getFinalTermById(m.fin.size() - 1) == r && f.getFinalTermByName("t" + std::to_string(i)) == r, "final term lookup");
            }
            else
            {
                c.eqI(f.addIntermediateTerm(r), m.inter.size(), "index of added intermediate term");
                m.inter.push_back(t);
                c.check(f.getIntermediateTermById(m.inter.size() - 1) == r && f.getIntermediateTermByName("t" + std::to_string(i)) == r, "intermediate term lookup");
            }
        }
        else
            switch (op - 2 * nk)
            {
                case 0:
                case 1:
                {
                    Pt p = P[1 + (op - 2 * nk)];
                    c.log() << "set(t=" << p.t << ") ";
                    f.setCurrentStateAndControl(p.x, p.u, p.t);
                    m.cur = p;
                    m.cur.t += m.shift;
                    break;
                }
                case 2:
                    c.log() << "refState ";
                    f.updateReferenceState(xn[i % 2]);
                    for (auto& t : m.inter)
                        if (t.usesXRef())
                            t.xr = xn[i % 2];
                    break;
                case 3:
                    c.log() << "refControl ";
                    f.updateReferenceControl(un[i % 2]);
                    for (auto& t : m.inter)
                        if (t.usesXRef())
                            t.ur = un[i % 2];
                    break;
                case 4:
                    c.log() << "finalState ";
                    f.updateFinalState(xn[i % 2]);
                    for (auto& t : m.fin)
                        if (t.usesXRef())
                            t.xr = xn[i % 2];
                    break;
                case 5:
                    c.log() << "shift ";
                    m.shift = m.shift == 0 ? 0.5 : -0.25;
                    f.shiftTime(m.shift);
                    break;
                case 6:
                    c.log() << "reweight ";
                    if (!m.inter.empty())
                        m.inter[0].reweight(*f.getIntermediateTermById(0));
                    if (!m.fin.empty())
                        m.fin.back().reweight(*f.getFinalTermById(m.fin.size() - 1));
                    break;
                default:
                    c.log() << "numdiff ";
                    f.stateDerivativeIntermediateTest();
                    f.controlDerivativeIntermediateTest();
            }
        compareCost(c, f, m);
        c.state(c.hist);
    }
    f.setCurrentStateAndControl(P[2].x, P[2].u, P[2].t);
    m.cur = P[2];
    m.cur.t += m.shift;
    compareCost(c, f, m);
}

MC_SUITE(programs, "all sequences of 3 operations (add any of 6 term kinds as intermediate/final, set point, retarget state/control/final, shift time, re-weight, numerical check) with activations cycling")
{
    program(c, 3, {LINEAR, QUADRATIC, MIXED, QUADMULT, SMOOTHABS, TRACKING}, true);
}
MC_SUITE_THOROUGH(programs4, "all sequences of 4 operations over all kinds")
{
    program(c, 4, {LINEAR, QUADRATIC, MIXED, QUADMULT, SMOOTHABS, TRACKING}, true);
}
MC_SUITE_THOROUGH(programs5, "all sequences of 5 operations over quadratic and mixed terms, without activations")
{
    program(c, 5, {QUADRATIC, MIXED}, false);
}

template <class M>
static std::string matText(const char* name, const M& m, double scaling, bool writeScaling)
{
    std::ostringstream o;
    o << "  " << name << "\n  {\n";
    if (writeScaling)
        o << "   scaling " << mc::num(scaling) << "\n";
    for (int i = 0; i < m.rows(); i++)
        for (int j = 0; j < m.cols(); j++)
            if (m(i, j) != 0.0)
                o << "   (" << i << "," << j << ") " << mc::num(m(i, j) / (writeScaling ? scaling : 1.0)) << "\n";
    o << "  }\n";
    return o.str();
}
static std::string termText(const TermM& t, int idx, int type, bool sc, const std::string& name)
{
    std::ostringstream o;
    o << "term" << idx << "\n{\n kind " << kindName[t.kind] << "\n type " << type << "\n";
    if (!name.empty())
        o << " name " << name << "\n";
    o << t.act.file() << " weights\n {\n";
    if (t.kind == LINEAR)
        o << matText("a", t.a, 2, sc) << matText("b", t.b, 4, sc) << (t.cst != 0 ? "  c " + mc::num(t.cst) + "\n" : "");
    else if (t.kind == MIXED)
        o << matText("P", t.P, 2, sc) << matText("x_des", t.xr, 0.5, sc) << matText("u_des", t.ur, 4, sc);
    else if (t.kind == SMOOTHABS)
        o << matText("a", t.a, 2, sc) << matText("x_ref", t.xr, 0.5, sc) << matText("b", t.b, 4, sc) << matText("u_ref", t.ur, 2, sc) << "  alpha " << mc::num(t.alpha) << "\n";
    else
        o << matText("Q", t.Q, 2, sc) << matText("R", t.R, 0.5, sc) << matText("x_des", t.xr, 0.5, sc) << matText("u_des", t.ur, 4, sc);
    o << " }\n}\n";
    return o.str();
}
static TermM pickFileTerm(mc::Ctx& c, bool full)
{
    TermM t(c.choose(5), full ? c.choose(2) : 1);
    t.act.kind = full ? c.choose(5) : 2 * c.choose(2);
    if (full && c.flip())
    {
        // absent entries are zero
        t.Q(0, 1) = 0, t.Q(2, 2) = 0, t.R(1, 0) = 0, t.P(1, 2) = 0, t.xr(1) = 0, t.ur(0) = 0, t.a(0) = 0, t.b(1) = 0, t.cst = 0;
    }
    return t;
}

MC_SUITE(files, "all config files with one term (5 kinds x 2 weight sets x sparse/dense x 5 activations x type x scaling x name) or two terms, loaded by constructor or over an existing cost")
{
    mc::Quiet quiet;
    CostM m;
    int nT = 1 + c.choose(2);
    std::string text;
    bool named = true;
    std::vector<std::pair<int, std::string>> names;
    for (int i = 0; i < nT; i++)
    {
        TermM t = pickFileTerm(c, nT == 1);
        int type = c.choose(2);
        bool sc = nT == 1 ? c.flip() : i == 0;
        text += termText(t, i, type, sc, "n" + std::to_string(i));
        (type ? m.fin : m.inter).push_back(t);
        if (t.kind == QUADRATIC || t.kind == MIXED)
            names.push_back({type, "n" + std::to_string(i)});
    }
    (void)named;
    int how = c.choose(3);
    c.log() << "how " << how << " file:\n" << text;
    mc::MemFile file(text);
    std::shared_ptr<Cost> f;
    if (how == 0)
        f = std::make_shared<Cost>(file.path);
    else
    {
        f = std::make_shared<Cost>();
        TermM o(QUADRATIC, 0);
        f->addIntermediateTerm(o.make());
        f->addFinalTerm(o.make());
        if (how == 2)
            f->loadFromConfigFile(file.path);
        f->loadFromConfigFile(file.path);
    }
    for (auto& n : names)
        n.first ? (void)f->getFinalTermByName(n.second) : (void)f->getIntermediateTermByName(n.second);
    c.throws([&]() { f->getIntermediateTermByName("absent"); }, "lookup of an unknown intermediate name");
    c.throws([&]() { f->getFinalTermByName("absent"); }, "lookup of an unknown final name");
    for (auto& p : pts())
    {
        f->setCurrentStateAndControl(p.x, p.u, p.t);
        m.cur = p;
        compareCost(c, *f, m);
    }
}

MC_SUITE(badfiles, "malformed files: unknown term kind, unknown type, missing kind/type are rejected; unknown activation kind leaves the term always active")
{
    mc::Quiet quiet;
    TermM t(QUADRATIC, 0);
    std::string good = termText(t, 0, 0, false, "a");
    int k = c.choose(5);
    auto sub = [&](std::string o, std::string n) {
        size_t p = good.find(o);
        return good.substr(0, p) + n + good.substr(p + o.size());
    };
    std::string text = k == 0 ? sub("kind quadratic", "kind cubic") : k == 1 ? sub("type 0", "type 2") : k == 2 ? sub(" kind quadratic\n", "") : k == 3 ? sub(" type 0\n", "") : sub(" weights", " time_activation\n {\n kind nonsense\n }\n weights");
    c.log() << text;
    mc::MemFile file(text);
    Cost f;
    c.step();
    if (k < 4)
        c.throws([&]() { f.loadFromConfigFile(file.path); }, "malformed cost file");
    else
    {
        f.loadFromConfigFile(file.path);
        CostM m;
        m.inter.push_back(t);
        for (auto& p : pts())
        {
            f.setCurrentStateAndControl(p.x, p.u, p.t);
            m.cur = p;
            compareCost(c, f, m);
        }
    }
}

MC_SUITE(termload, "each loadable and tracking/barrier term loaded directly over previous data; term-level activation queries")
{
    mc::Quiet quiet;
    TermM t(c.choose(5), c.choose(2)), o(t.kind, 0);
    t.act.kind = c.choose(5);
    mc::MemFile file(termText(t, 0, 0, c.flip(), "nm"));
    auto r = o.make();
    r->loadConfigFile(file.path, "term0");
    r->loadTimeActivation(file.path, "term0");
    for (auto& p : pts())
        for (double dt : {0.0, 0.3, -0.75})
        {
            double s = p.t + dt;
            Jet j = t.value(p.x, p.u, s);
            c.step();
            c.check(r->isActiveAtTime(s) == t.act.active(s), "isActiveAtTime of a loaded term");
            if (t.act.active(s))
            {
                c.eq(r->computeActivation(s), t.act.val(s), "computeActivation of a loaded term");
                c.eq(r->eval(p.x, p.u, s), t.act.val(s) * j.v, "eval is the activated value", 1e-9);
            }
            c.eq(r->evaluate(p.x, p.u, s), j.v, "value of a loaded term", 1e-9);
        }
    if (t.kind == QUADRATIC)
    {
        c.eqM(r->getReferenceState(), t.xr, "getReferenceState");
        auto& q = static_cast<TermQuadratic<NX, NU>&>(*r);
        c.eqM(q.getStateWeight(), t.Q, "getStateWeight");
        c.eqM(q.getControlWeight(), t.R, "getControlWeight");
        q.setStateAndControlReference(o.a, o.b);
        t.xr = o.a, t.ur = o.b;
        c.eq(r->evaluate(pts()[1].x, pts()[1].u, 0), t.value(pts()[1].x, pts()[1].u, 0).v, "value after setStateAndControlReference", 1e-9);
    }
    // barrier bounds from file (diagonals)
    TermM b(BARRIER, 1);
    std::ostringstream s;
    s << "term0\n{\n weights\n {\n" << matText("alpha", XX(vx(0.5, 1.0, 1.5).asDiagonal()), 1, false) << matText("upper_bound", XX(b.ub.asDiagonal()), 1, false)
      << matText("lower_bound", XX(b.lb.asDiagonal()), 2, true) << " }\n}\n";
    mc::MemFile bf(s.str());
    TermStateBarrier<NX, NU> bar;
    bar.loadConfigFile(bf.path, "term0");
    TermStateBarrier<NX, NU> bar2(vx(9, 9, 9), vx(-9, -9, -9), vx(1, 1, 1));
    bar2.loadConfigFile(bf.path, "term0");
    for (auto& p : pts())
    {
        c.eq(bar.evaluate(p.x, p.u, p.t), b.value(p.x, p.u, p.t).v, "loaded barrier term", 1e-9);
        c.eq(bar2.evaluate(p.x, p.u, p.t), b.value(p.x, p.u, p.t).v, "re-loaded barrier term", 1e-9);
    }
}

// simple quadratic cost: 1/2 dx'Q dx + 1/2 du'R du, terminal 1/2 dx'Qf dx (symmetric weights)
MC_SUITE(simple, "all sequences of 5 (quick) / 6 (thorough) set-point / retarget / time-shift / clone / numerical-check operations on the simple quadratic cost")
{
    XX Q, Qf;
    UU R;
    Q << 2, 1, 0, 1, 3, -1, 0, -1, 4;
    Qf << 1, 0.5, 0, 0.5, 2, 0, 0, 0, 5;
    R << 2, 0.5, 0.5, 1;
    XV xr = vx(1, -1, 0.5), xf = vx(0, 2, -1);
    UV ur = vu(0.5, -0.25);
    auto f = std::make_shared<CostFunctionQuadraticSimple<NX, NU>>(Q, R, xr, ur, xf, Qf);
    auto P = pts();
    Pt cur = {XV(XV::Zero()), UV(UV::Zero()), 0};
    bool set = false;
    double shift = 0;
    int D = c.thorough ? 6 : 5;
    for (int i = 0; i < D; i++)
    {
        int op = i == 0 ? c.choose(3) : c.choose(8);
        c.step();
        c.log() << "op" << op << " ";
        XV xn = vx(i, 1 - i, 0.5);
        UV un = vu(0.5 * i, -1);
        switch (op)
        {
            case 0:
            case 1:
            case 2:
                f->setCurrentStateAndControl(P[op + 1].x, P[op + 1].u, P[op + 1].t);
                cur = P[op + 1];
                cur.t += shift;
                set = true;
                break;
            case 3: f->updateReferenceState(xn), xr = xn; break;
            case 4: f->updateReferenceControl(un), ur = un; break;
            case 5: f->updateFinalState(xn), xf = xn; break;
            case 6: shift = shift == 0 ? 0.5 : 0, f->shiftTime(shift); break;
            default:
            {
                std::shared_ptr<CostFunctionQuadraticSimple<NX, NU>> g(f->clone());
                std::swap(f, g);
                g->updateReferenceState(vx(9, 9, 9));
                g->updateReferenceControl(vu(9, 9));
                g->updateFinalState(vx(9, 9, 9));
                g->setCurrentStateAndControl(vx(9, 8, 7), vu(9, 7), 5);
            }
        }
        Eigen::Matrix<double, NX, 1> xg;
        Eigen::Matrix<double, NU, 1> ug;
        double tg;
        for (int rep = 0; rep < 2; rep++)
        {
            f->getCurrentStateAndControl(xg, ug, tg);
            c.eqM(xg, cur.x, "current state");
            c.eqM(ug, cur.u, "current control");
            c.eq(tg, cur.t, "current time");
            XV dx = XV(cur.x - xr), df = XV(cur.x - xf);
            UV du = UV(cur.u - ur);
            c.eq(f->evaluateIntermediate(), 0.5 * dx.dot(Q * dx) + 0.5 * du.dot(R * du), "intermediate cost");
            c.eqM(f->stateDerivativeIntermediate(), Q * dx, "state derivative");
            c.eqM(f->controlDerivativeIntermediate(), R * du, "control derivative");
            c.eqM(f->stateSecondDerivativeIntermediate(), Q, "state Hessian");
            c.eqM(f->controlSecondDerivativeIntermediate(), R, "control Hessian");
            c.eqM(f->stateControlDerivativeIntermediate(), UX(UX::Zero()), "mixed derivative");
            c.eq(f->evaluateTerminal(), 0.5 * df.dot(Qf * df), "terminal cost");
            c.eqM(f->stateDerivativeTerminal(), Qf * df, "terminal derivative");
            c.eqM(f->stateSecondDerivativeTerminal(), Qf, "terminal Hessian");
            f->stateDerivativeIntermediateTest();
            f->controlDerivativeIntermediateTest();
        }
        c.state(c.hist);
    }
    (void)set;
}
