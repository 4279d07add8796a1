// P03: switched objects
// MC_LIBS: -llapack -lblas
#include "mc.h"
#include "optcon_constraints.h"
typedef Eigen::Matrix<double, 3, 3> MA;
typedef Eigen::Matrix<double, 3, 2> MB;

// reference phase lookup, written independently: linear scan over half-open intervals
template <class T>
struct RefSeq
{
    T start;
    std::vector<size_t> phases;
    std::vector<T> dur;
    T begin(size_t i) const
    {
        T t = start;
        for (size_t k = 0; k < i; k++)
            t = t + dur[k];
        return t;
    }
    size_t idx(T t) const
    {
        if (t < start)
            return 0;
        for (size_t i = 0; i < phases.size(); i++)
            if (begin(i) <= t && t < begin(i + 1))
                return i;
        return phases.size() - 1;
    }
    size_t mode(T t) const { return phases[idx(t)]; }
};
template <class T>
static void build(mc::Ctx& c, PhaseSequence<size_t, T>& seq, RefSeq<T>& ref, const std::vector<T>& starts, const std::vector<T>& durs, int maxPhases, size_t nModes)
{
    ref.start = starts[c.choose(starts.size())];
    seq = PhaseSequence<size_t, T>(ref.start);
    int n = 1 + c.choose(maxPhases);
    for (int i = 0; i < n; i++)
    {
        size_t m = c.choose(nModes);
        T d = durs[c.choose(durs.size())];
        seq.addPhase(m, d);
        ref.phases.push_back(m);
        ref.dur.push_back(d);
        c.log() << "phase(" << m << "," << d << ") ";
    }
}
template <class T>
static std::vector<T> queryTimes(const RefSeq<T>& r, T eps)
{
    std::vector<T> q = {r.start - 7, r.start - eps};
    for (size_t i = 0; i <= r.phases.size(); i++)
    {
        q.push_back(r.begin(i));
        q.push_back(r.begin(i) - eps);
        q.push_back(r.begin(i) + eps);
    }
    q.push_back(r.begin(r.phases.size()) + 100);
    return q;
}
template <class T>
static void lookup(mc::Ctx& c, const std::vector<T>& starts, const std::vector<T>& durs, T eps, int maxPhases)
{
    PhaseSequence<size_t, T> s;
    RefSeq<T> r;
    build(c, s, r, starts, durs, maxPhases, 3);
    size_t n = r.phases.size();
    c.eqI(s.getNumPhases(), n, "number of phases");
    c.eqI(s.getNumSwitches(), n - 1, "number of switches");
    c.eq(s.getTotalDuration(), r.begin(n) - r.start, "total duration", 1e-12);
    c.eqI(s.getFirstPhase(), r.phases.front(), "first phase");
    c.eqI(s.getFinalPhase(), r.phases.back(), "final phase");
    for (size_t i = 0; i < n; i++)
    {
        c.eqI(s.getPhaseFromIdx(i), r.phases[i], "phase from index");
        c.eq(s.getStartTimeFromIdx(i), r.begin(i), "start time", 1e-12);
        c.eq(s.getEndTimeFromIdx(i), r.begin(i + 1), "end time", 1e-12);
        if (i + 1 < n)
        {
            auto e = s.getSwitchEventFromIdx(i);
            c.eqI(e.pre_phase, r.phases[i], "switch event pre");
            c.eqI(e.post_phase, r.phases[i + 1], "switch event post");
            c.eq(e.switch_time, r.begin(i + 1), "switch event time", 1e-12);
        }
    }
    const PhaseSequence<size_t, T> copy = s;
    for (T t : queryTimes(r, eps))
    {
        size_t i = r.idx(t);
        c.log() << "t=" << t << " ";
        c.eqI(s.getIdxFromTime(t), i, "phase index at time");
        c.eqI(s.getPhaseFromTime(t), r.phases[i], "phase at time");
        c.eqI(copy.getPhaseFromTime(t), r.phases[i], "phase at time, copy");
        if (i + 1 < n)
        {
            auto e = s.getSwitchEventFromTime(t);
            c.eqI(e.pre_phase, r.phases[i], "switch event at time: pre");
            c.eqI(e.post_phase, r.phases[i + 1], "switch event at time: post");
            c.eq(e.switch_time, r.begin(i + 1), "switch event at time: time", 1e-12);
        }
        c.step();
    }
    c.state(c.hist);
}
MC_SUITE(phase_lookup_cont, "every phase sequence of up to 4 (quick) / 5 (thorough) phases over 3 modes, 3 durations incl. zero, 2 start times; all boundary and neighbouring query times")
{
    lookup<double>(c, {0.0, -1.3}, {0.0, 0.3, 1.1}, 1e-9, c.thorough ? 5 : 4);
}
MC_SUITE(phase_lookup_disc, "same for integer (discrete) phase sequences")
{
    lookup<int>(c, {0, -3}, {0, 1, 4}, 1, c.thorough ? 5 : 4);
}

// ---- mode systems with a mutable parameter
template <class SYS>
struct ContMode : public SYS
{
    double k, *shared;
    MA A;
    MB B;
    explicit ContMode(double kk) : k(kk) {}
    static MA a(double k, double t)
    {
        MA m;
        m << k, 1, 0, -2, 0.5 * k, t, 0, k * k, -1;
        return m;
    }
    static MB b(double k, double t)
    {
        MB m;
        m << 1, k, 0, t, 2 * k, -1;
        return m;
    }
    static X dyn(double k, double t, const X& x, const U& u) { return a(k, t) * x + b(k, t) * u; }
};
struct NLMode : public ContMode<ControlledSystem<3, 2>>
{
    using ContMode::ContMode;
    NLMode* clone() const override { return new NLMode(*this); }
    static X ref(double k, double t, const X& x, const U& u)
    {
        X d = dyn(k, t, x, u);
        d(0) += x(1) * x(2) * k;
        return d;
    }
    void computeControlledDynamics(const X& x, const double& t, const U& u, X& d) override { d = ref(k, t, x, u); }
};
struct LinMode : public ContMode<LinearSystem<3, 2>>
{
    using ContMode::ContMode;
    LinMode* clone() const override { return new LinMode(*this); }
    const StateMatrix<3>& getDerivativeState(const X&, const U&, const double t) override { return A_ = a(k, t); }
    const StateControlMatrix<3, 2>& getDerivativeControl(const X&, const U&, const double t) override { return B_ = b(k, t); }
    StateMatrix<3> A_;
    StateControlMatrix<3, 2> B_;
};
struct DMode : public DiscreteControlledSystem<3, 2>
{
    double k;
    explicit DMode(double kk) : k(kk) {}
    DMode* clone() const override { return new DMode(*this); }
    void propagateControlledDynamics(const X& x, const int n, const U& u, X& xn) override { xn = NLMode::ref(k, n, x, u); }
};
struct DLMode : public DiscreteLinearSystem<3, 2>
{
    double k;
    explicit DLMode(double kk) : k(kk) {}
    DLMode* clone() const override { return new DLMode(*this); }
    void getAandB(const X& x, const U& u, const X& xn, const int n, size_t sub, StateMatrix<3>& A, StateControlMatrix<3, 2>& B) override
    {
        A = LinMode::a(k, n);
        B = LinMode::b(k, n);
        A(0, 0) += 100.0 * sub + xn(0) - x(0);  // all arguments have to arrive
        B(0, 0) += u(1);
    }
};
struct Ctl : public Controller<3, 2>
{
    double g;
    explicit Ctl(double gg) : g(gg) {}
    Ctl* clone() const override { return new Ctl(*this); }
    static U ref(double g, const X& x, double t) { return mku(g * x(0) + t, -x(2)); }
    void computeControl(const X& x, const double& t, U& u) override { u = ref(g, x, t); }
};
struct DCtl : public DiscreteController<3, 2>
{
    double g;
    explicit DCtl(double gg) : g(gg) {}
    DCtl* clone() const override { return new DCtl(*this); }
    void computeControl(const X& x, const int n, U& u) override { u = Ctl::ref(g, x, n); }
};
static const double KS[3] = {0.75, -1.5, 2.25};

template <class T>
static T pickTime(mc::Ctx& c, const RefSeq<T>& r, T eps)
{
    // boundaries, just before, and out of range
    size_t n = r.phases.size();
    int w = c.choose(2 * n + 2);
    T t;
    if (w == 0)
        t = r.start - 2;
    else if (w == (int)(2 * n + 1))
        t = r.begin(n) + 3;
    else
        t = (w % 2) ? r.begin((w - 1) / 2) : r.begin((w - 1) / 2 + 1) - eps;
    c.log() << "t=" << t << " ";
    return t;
}
// generic: NSYS switched object; ops: query original, query clone, mutate a mode of the original, clone again
enum Kind
{
    CONT_NL,
    CONT_LIN
};
template <class MODE, class SWITCHED, class BASE>
static void contRun(mc::Ctx& c, bool linear)
{
    ContinuousModeSequence seq;
    RefSeq<double> ref;
    build<double>(c, seq, ref, {0.0, -0.5}, {0.4, 1.0}, 2, 3);
    std::vector<std::shared_ptr<MODE>> modes;
    Switched<std::shared_ptr<BASE>> sys;
    std::vector<double> k(KS, KS + 3), kc;
    for (int i = 0; i < 3; i++)
    {
        modes.emplace_back(new MODE(k[i]));
        sys.push_back(modes.back());
    }
    std::shared_ptr<SWITCHED> s(new SWITCHED(sys, seq)), cl;
    sys.clear();
    auto ctl = std::make_shared<Ctl>(0.5);
    bool hasCtl = c.flip();
    if (hasCtl)
        s->setController(ctl);
    double g = 0.5, gc = 0.5;
    X x = mkx(0.5, -1, 2);
    U u = mku(1.5, -0.25);
    auto check = [&](SWITCHED& o, const std::vector<double>& kk, double gg, double t) {
        double km = kk[ref.mode(t)];
        X d, want = linear ? X(LinMode::dyn(km, t, x, u)) : NLMode::ref(km, t, x, u);
        d.setConstant(77);
        o.computeControlledDynamics(x, t, u, d);
        c.eqM(d, want, "controlled dynamics", 1e-12);
        U uc = hasCtl ? Ctl::ref(gg, x, t) : mku(0, 0);
        want = linear ? X(LinMode::dyn(km, t, x, uc)) : NLMode::ref(km, t, x, uc);
        d.setConstant(77);
        o.computeDynamics(x, t, d);
        c.eqM(d, want, "closed-loop dynamics", 1e-12);
    };
    int depth = c.thorough ? 4 : 3;
    for (int i = 0; i < depth; i++)
    {
        int op = c.choose(cl ? 4 : 3);
        c.step();
        switch (op)
        {
            case 0:
                c.log() << "query ";
                check(*s, k, g, pickTime(c, ref, 1e-9));
                break;
            case 1:
                c.log() << "clone ";
                cl.reset(static_cast<SWITCHED*>(s->clone()));
                kc = k;
                gc = g;
                break;
            case 2:
            {
                c.log() << "mutate ";
                for (int m = 0; m < 3; m++)
                    modes[m]->k = k[m] = k[m] + 1;
                ctl->g = g = g - 2;
                break;
            }
            case 3:
                c.log() << "queryClone ";
                check(*cl, kc, gc, pickTime(c, ref, 1e-9));
                break;
        }
        c.state(mc::mix(c.hist, op));
    }
}
MC_SUITE(switched_controlled_system, "phase sequences of up to 2 phases over 3 modes; all histories of 3 (quick) / 4 (thorough) steps of query at boundary times / clone / parameter change / query clone")
{
    contRun<NLMode, SwitchedControlledSystem<3, 2>, ControlledSystem<3, 2>>(c, false);
}
MC_SUITE(switched_linear_system, "same for the linear variant")
{
    contRun<LinMode, SwitchedLinearSystem<3, 2>, LinearSystem<3, 2>>(c, true);
}
MC_SUITE(switched_linear_derivatives, "state and input derivatives of a switched linear system for sequences of up to 3 phases and pairs of query times")
{
    ContinuousModeSequence seq;
    RefSeq<double> ref;
    build<double>(c, seq, ref, {0.0, 2.0}, {0.4, 1.0}, 3, 3);
    Switched<std::shared_ptr<LinearSystem<3, 2>>> sys;
    for (int i = 0; i < 3; i++)
        sys.push_back(std::make_shared<LinMode>(KS[i]));
    SwitchedLinearSystem<3, 2> s(sys, seq);
    X x = mkx(1, 2, 3);
    U u = mku(1, 2);
    for (int i = 0; i < 2; i++)
    {
        double t = pickTime(c, ref, 1e-9), km = KS[ref.mode(t)];
        StateMatrix<3> A;
        StateControlMatrix<3, 2> B;
        c.eqM(s.getDerivativeState(x, u, t), LinMode::a(km, t), "A", 1e-12);
        c.eqM(s.getDerivativeControl(x, u, t), LinMode::b(km, t), "B", 1e-12);
        s.getDerivatives(A, B, x, u, t);
        c.eqM(A, LinMode::a(km, t), "A (pair)", 1e-12);
        c.eqM(B, LinMode::b(km, t), "B (pair)", 1e-12);
        c.step();
    }
    c.state(c.hist);
}
template <class MODE, class SWITCHED, class BASE>
static void discRun(mc::Ctx& c, bool linear)
{
    DiscreteModeSequence seq;
    RefSeq<int> ref;
    build<int>(c, seq, ref, {0, -1}, {1, 3}, 2, 3);
    std::vector<std::shared_ptr<MODE>> modes;
    Switched<std::shared_ptr<BASE>> sys;
    std::vector<double> k(KS, KS + 3), kc;
    for (int i = 0; i < 3; i++)
    {
        modes.emplace_back(new MODE(k[i]));
        sys.push_back(modes.back());
    }
    std::shared_ptr<SWITCHED> s(new SWITCHED(sys, seq)), cl;
    sys.clear();
    auto ctl = std::make_shared<DCtl>(0.5);
    bool hasCtl = c.flip();
    if (hasCtl)
        s->setController(ctl);
    double g = 0.5, gc = 0.5;
    X x = mkx(0.5, -1, 2), x2 = mkx(0.25, 4, 1);
    U u = mku(1.5, -0.25);
    auto val = [&](double km, int n, const U& uu) {
        if (!linear)
            return NLMode::ref(km, n, x, uu);
        MA A = LinMode::a(km, n);
        MB B = LinMode::b(km, n);
        A(0, 0) += 100.0;
        B(0, 0) += uu(1);
        return X(A * x + B * uu);
    };
    auto check = [&](SWITCHED& o, const std::vector<double>& kk, double gg, int n) {
        double km = kk[ref.mode(n)];
        X d = mkx(7, 7, 7);
        o.propagateControlledDynamics(x, n, u, d);
        c.eqM(d, val(km, n, u), "controlled propagation", 1e-12);
        U uc = hasCtl ? Ctl::ref(gg, x, n) : mku(0, 0);
        o.propagateDynamics(x, n, d);
        c.eqM(d, val(km, n, uc), "closed-loop propagation", 1e-12);
        auto* dl = dynamic_cast<DiscreteLinearSystem<3, 2>*>(static_cast<DiscreteControlledSystem<3, 2>*>(&o));
        if (dl)
        {
            StateMatrix<3> A;
            StateControlMatrix<3, 2> B;
            MA Ar = LinMode::a(km, n);
            MB Br = LinMode::b(km, n);
            Br(0, 0) += u(1);
            dl->getAandB(x, u, x2, n, 3, A, B);
            Ar(0, 0) += 300 + x2(0) - x(0);
            c.eqM(A, Ar, "A", 1e-12);
            c.eqM(B, Br, "B", 1e-12);
            dl->getAandB(x, u, n, A, B);
            Ar(0, 0) = LinMode::a(km, n)(0, 0) + 100;
            c.eqM(A, Ar, "A (short form)", 1e-12);
            c.eqM(B, Br, "B (short form)", 1e-12);
        }
    };
    int depth = c.thorough ? 4 : 3;
    for (int i = 0; i < depth; i++)
    {
        int op = c.choose(cl ? 4 : 3);
        c.step();
        switch (op)
        {
            case 0:
                c.log() << "query ";
                check(*s, k, g, pickTime(c, ref, 1));
                break;
            case 1:
                c.log() << "clone ";
                cl.reset(static_cast<SWITCHED*>(s->clone()));
                kc = k;
                gc = g;
                break;
            case 2:
                c.log() << "mutate ";
                for (int m = 0; m < 3; m++)
                    modes[m]->k = k[m] = k[m] + 1;
                ctl->g = g = g - 2;
                break;
            case 3:
                c.log() << "queryClone ";
                check(*cl, kc, gc, pickTime(c, ref, 1));
                break;
        }
        c.state(mc::mix(c.hist, op));
    }
}
MC_SUITE(switched_discrete_system, "discrete phase sequences of up to 2 phases over 3 modes; all histories of 3/4 steps of query / clone / parameter change / query clone")
{
    discRun<DMode, SwitchedDiscreteControlledSystem<3, 2>, DiscreteControlledSystem<3, 2>>(c, false);
}
MC_SUITE(switched_discrete_linear_system, "same for the discrete linear variant incl. getAandB")
{
    discRun<DLMode, SwitchedDiscreteLinearSystem<3, 2>, DiscreteLinearSystem<3, 2>>(c, true);
}
// ---- switched constraint containers
MC_SUITE(switched_constraints, "3 containers (different intermediate/terminal constraints), sequences of up to 3 phases; all histories of 3/4 steps of set-time-and-query / clone / query clone")
{
    ContinuousModeSequence seq;
    RefSeq<double> ref;
    build<double>(c, seq, ref, {0.0, -0.5}, {0.4, 1.0}, c.thorough ? 3 : 2, 3);
    std::vector<std::vector<Ref>> inter(3), term(3);
    Switched<std::shared_ptr<LinearConstraintContainer<3, 2>>> con;
    static const std::vector<std::vector<int>> I = {{0, 1}, {2}, {1, 3, 4}}, T = {{5}, {0, 6}, {2}};
    for (int m = 0; m < 3; m++)
    {
        auto cc = std::make_shared<ConstraintContainerAnalytical<3, 2>>();
        for (int k : I[m])
        {
            inter[m].push_back(makeCon(k));
            cc->addIntermediateConstraint(inter[m].back().impl, false);
        }
        for (int k : T[m])
        {
            term[m].push_back(makeCon(k));
            cc->addTerminalConstraint(term[m].back().impl, false);
        }
        con.push_back(cc);
    }
    std::shared_ptr<SwitchedLinearConstraintContainer<3, 2>> s(new SwitchedLinearConstraintContainer<3, 2>(con, seq)), cl;
    s->initialize();
    c.check(s->isInitialized(), "initialised");
    auto pts = points();
    Point p{mkx(0, 0, 0), mku(0, 0), 0.0}, pc = p;
    auto check = [&](SwitchedLinearConstraintContainer<3, 2>& o, const Point& q) {
        compareContainer(c, o, inter[ref.mode(q.t)], false, q.x, q.u, q.t);
        compareContainer(c, o, term[ref.phases.back()], true, q.x, q.u, q.t);
        c.eqI(o.getConstraintsCount(), o.getIntermediateConstraintsCount() + o.getTerminalConstraintsCount(), "total count");
    };
    if (c.flip())
        check(*s, p);  // freshly initialised: state, control and time are zero
    int depth = c.thorough ? 4 : 3;
    for (int i = 0; i < depth; i++)
    {
        int op = c.choose(cl ? 4 : 2);
        c.step();
        if (op == 0)
        {
            c.log() << "set ";
            p = pts[i % pts.size()];
            p.t = pickTime(c, ref, 1e-9);
            s->setCurrentStateAndControl(p.x, p.u, p.t);
        }
        else if (op == 1)
        {
            c.log() << "clone ";
            cl.reset(static_cast<SwitchedLinearConstraintContainer<3, 2>*>(s->clone()));
            pc = p;
        }
        else if (op == 2)
        {
            c.log() << "setClone ";
            pc = pts[(i + 1) % pts.size()];
            pc.t = pickTime(c, ref, 1e-9);
            cl->setCurrentStateAndControl(pc.x, pc.u, pc.t);
        }
        else
            c.log() << "query ";
        check(*s, p);
        if (cl)
            check(*cl, pc);
        c.state(mc::mix(c.hist, op));
    }
}

