// P05: integrators
#include <ct/core/core.h>
#include <ct/core/integration/IntegratorSymplectic.h>
#include "mc.h"
using namespace ct::core;
namespace od = boost::numeric::odeint;
typedef StateVector<2> X;
typedef Eigen::Vector2d E;
typedef ControlVector<1> U;
typedef std::pair<double, E> TX;
typedef std::vector<TX> Log;
// three right-hand sides: autonomous, time-varying, controlled
static double law(const E& x, double t) { return 0.5 * x(0) - t * x(1); }
static E f(int kind, const E& x, double t)
{
    switch (kind)
    {
        case 0:
            return E(x(1), -x(0) * x(1));
        case 1:
            return E(x(1) * t, 1 - t * t * x(0));
        default:
            return E(x(1) + t, x(0) + 2 * law(x, t));
    }
}
struct Auto : public System<2>
{
    int kind;
    Auto(int k) : kind(k) {}
    Auto* clone() const override { return new Auto(*this); }
    void computeDynamics(const X& x, const double& t, X& d) override { d = f(kind, x, t); }
};
struct Ctl : public Controller<2, 1>
{
    Ctl* clone() const override { return new Ctl(*this); }
    void computeControl(const X& x, const double& t, U& u) override { u(0) = law(x, t); }
};
struct Controlled : public ControlledSystem<2, 1>
{
    Controlled() { setController(std::make_shared<Ctl>()); }
    Controlled* clone() const override { return new Controlled(*this); }
    void computeControlledDynamics(const X& x, const double& t, const U& u, X& d) override { d << x(1) + t, x(0) + 2 * u(0); }
};
// ---- reference methods
typedef std::function<E(const E&, double)> Rhs;
static E stepRef(IntegrationType type, const Rhs& g, const E& x, double t, double h)
{
    switch (type)
    {
        case EULER:
        case EULERCT:
            return x + h * g(x, t);
        case RK4:
        case RK4CT:
        {
            E a = g(x, t), b = g(x + 0.5 * h * a, t + 0.5 * h), k = g(x + 0.5 * h * b, t + 0.5 * h), d = g(x + h * k, t + h);
            return x + h / 6.0 * (a + 2 * b + 2 * k + d);
        }
        case MODIFIED_MIDPOINT:
        {
            double m = h / 2;
            E z1 = x + m * g(x, t), z2 = x + 2 * m * g(z1, t + m);
            return 0.5 * (z1 + z2 + m * g(z2, t + h));
        }
        case RK78:
        {
            internal::runge_kutta_fehlberg78_t<2> s;
            E y = x;
            s.do_step([&](const E& a, E& d, double q) { d = g(a, q); }, y, t, h);
            return y;
        }
        default:  // Dormand-Prince 5
        {
            internal::runge_kutta_dopri5_t<2> s;
            E y = x;
            s.do_step([&](const E& a, E& d, double q) { d = g(a, q); }, y, t, h);
            return y;
        }
    }
}
struct Rec : public EventHandler<2>
{
    bool sub;
    int failAt = -1, seen = 0, resets = 0;
    std::shared_ptr<KillIntegrationEventHandler<2>> kill;
    Log log;
    explicit Rec(bool s) : sub(s) {}
    bool callOnSubsteps() override { return sub; }
    bool checkEvent(const X& x, const double& t) override { return true; }
    void handleEvent(const X& x, const double& t) override
    {
        log.push_back(TX(t, x));
        if (kill && seen == failAt)
            kill->setEvent();
        seen++;
    }
    void reset() override
    {
        resets++;
        log.clear();
        seen = 0;
    }
};
static void cmpLog(mc::Ctx& c, const Log& a, const Log& b, const char* what)
{
    c.eqI(a.size(), b.size(), what);
    for (size_t i = 0; i < a.size(); i++)
    {
        c.eq(a[i].first, b[i].first, what, 1e-9);
        c.eqM(a[i].second, b[i].second, what, 1e-9);
    }
}
static const IntegrationType FIXED[] = {EULER, RK4, MODIFIED_MIDPOINT, RK78, EULERCT, RK4CT, ODE45, RK5VARIABLE};
static bool isCT(IntegrationType t) { return t == EULERCT || t == RK4CT; }

MC_SUITE(fixed_step_histories, "8 fixed-step methods x 3 right-hand sides; all histories of 2 (quick) / 3 (thorough) runs with 0..3 steps, 2 step sizes, 2 start times, recorded/unrecorded/constant-span, method change, copy or assignment in between")
{
    int kind = c.choose(3);
    IntegrationType type = FIXED[c.choose(8)];
    std::shared_ptr<System<2>> sys;
    std::shared_ptr<Controlled> cs;
    if (kind == 2)
        sys = cs = std::make_shared<Controlled>();
    else
        sys = std::make_shared<Auto>(kind);
    auto rec = std::make_shared<Rec>(false), sub = std::make_shared<Rec>(true);
    Integrator<2>::EventHandlerPtrVector h;
    h.push_back(rec);
    h.push_back(sub);
    auto ssr = std::make_shared<SubstepRecorder<2, 1>>(cs, true);
    if (cs)
        h.push_back(ssr);
    std::unique_ptr<Integrator<2>> in(new Integrator<2>(sys, type, h));
    StateVectorArray<2> xs;
    TimeArray ts;
    int runs = c.thorough ? 3 : 2;
    for (int r = 0; r < runs; r++)
    {
        int ch = r ? c.choose(4) : 0;
        if (ch == 1)
        {
            type = FIXED[(c.choose(2) ? RK4CT : MODIFIED_MIDPOINT) == RK4CT ? 5 : 2];
            in->changeIntegrationType(type);
            c.log() << "changeType(" << type << ") ";
        }
        else if (ch == 2)  // go on with a copy
        {
            c.log() << "copy ";
            in.reset(new Integrator<2>(*in));
        }
        else if (ch == 3)  // assign a new integrator of another type
        {
            type = RK4;
            c.log() << "assign(" << type << ") ";
            *in = Integrator<2>(sys, type, h);
        }
        double dt = c.choose(2) ? 0.25 : 0.125, t0 = c.choose(2) ? 0.0 : 1.5;
        int n = c.choose(4), mode = c.choose(isCT(type) ? 2 : 4);
        bool subOn = true;
        if (cs && c.flip())
        {
            subOn = false;
        }
        ssr->setEnable(subOn);
        X x;
        x << 1 + 0.5 * r, -0.75;
        Log stages, obs;
        Rhs g = [&](const E& a, double t) {
            stages.push_back(TX(t, a));
            return f(kind, a, t);
        };
        E y = x;
        bool fsal = type == ODE45 || type == RK5VARIABLE;
        obs.push_back(TX(t0, y));
        for (int i = 0; i < n; i++)
        {
            y = stepRef(type, g, y, t0 + i * dt, dt);
            obs.push_back(TX(t0 + (i + 1) * dt, y));
        }
        if (isCT(type))
            obs.erase(obs.begin());
        c.log() << "run(type=" << type << ",n=" << n << ",dt=" << dt << ",t0=" << t0 << ",mode=" << mode << ") ";
        switch (mode)
        {
            case 0:
                in->integrate_n_steps(x, t0, n, dt, xs, ts);
                break;
            case 1:
                in->integrate_n_steps(x, t0, n, dt);
                break;
            case 2:
                in->integrate_const(x, t0, t0 + n * dt + 0.03, dt, xs, ts);
                break;
            case 3:
                in->integrate_const(x, t0, t0 + n * dt, dt);
                break;
        }
        c.step(1 + n);
        c.eqM(x, y, "final state", 1e-9);
        cmpLog(c, rec->log, obs, "step events");
        if (mode == 0 || mode == 2)
        {
            c.eqI(xs.size(), ts.size(), "trajectory sizes");
            Log l;
            for (size_t i = 0; i < xs.size(); i++)
                l.push_back(TX(ts[i], xs[i]));
            cmpLog(c, l, obs, "recorded trajectory");
        }
        if (!fsal)
        {
            cmpLog(c, sub->log, stages, "stage events");
            if (cs)
            {
                c.eqI(ssr->getSubstates()->size(), subOn ? stages.size() : 0, "recorded substates");
                c.eqI(ssr->getSubcontrols()->size(), subOn ? stages.size() : 0, "recorded subcontrols");
                for (size_t i = 0; subOn && i < stages.size(); i++)
                {
                    c.eqM((*ssr->getSubstates())[i], stages[i].second, "substate", 1e-9);
                    c.eq((*ssr->getSubcontrols())[i](0), law(stages[i].second, stages[i].first), "subcontrol", 1e-9);
                }
            }
        }
        c.state(mc::mix(mc::hd(x(0)), mc::hd(x(1))));
    }
}
MC_SUITE(stop_conditions, "8 methods; step limits 0..4 or kill request at event 0..3, n up to 4 steps, followed by an undisturbed rerun")
{
    IntegrationType type = FIXED[c.choose(8)];
    int kind = c.choose(2);
    auto sys = std::make_shared<Auto>(kind);
    auto maxh = std::make_shared<MaxStepsEventHandler<2>>();
    auto kill = std::make_shared<KillIntegrationEventHandler<2>>();
    auto rec = std::make_shared<Rec>(false);
    bool useKill = c.flip();
    bool killFirst = useKill && c.flip();  // handler order
    int lim = c.choose(5), n = c.choose(5);
    if (useKill)
    {
        rec->kill = kill;
        rec->failAt = lim;
    }
    else
        maxh->setMaxNumSteps(lim);
    Integrator<2>::EventHandlerPtrVector h;
    if (killFirst)
        h.push_back(kill);
    h.push_back(rec);
    h.push_back(maxh);
    if (!killFirst)
        h.push_back(kill);
    if (useKill)
        kill->setEvent();  // stale request from before the run: integration starts afresh
    Integrator<2> in(sys, type, h);
    double dt = 0.25, t0 = 0.5;
    X x;
    x << 0.5, 1.25;
    std::vector<E> st(1, E(x));
    Rhs g = [&](const E& a, double t) { return f(kind, a, t); };
    for (int i = 0; i < n; i++)
        st.push_back(stepRef(type, g, st.back(), t0 + i * dt, dt));
    // events: one per visited point; the built-in steppers do not report the starting point
    int nev = isCT(type) ? n : n + 1, first = isCT(type) ? 1 : 0;
    // index of the event at which the integration has to stop
    int stopEv = useKill ? (killFirst ? lim + 1 : lim) : lim;
    bool threw = false;
    StateVectorArray<2> xs;
    TimeArray ts;
    bool recorded = c.flip();
    try
    {
        if (recorded)
            in.integrate_n_steps(x, t0, n, dt, xs, ts);
        else
            in.integrate_n_steps(x, t0, n, dt);
    } catch (std::runtime_error& e)
    {
        threw = true;
    }
    c.step(n);
    c.check(threw == (stopEv < nev), threw ? "stopped although the limit was not reached" : "not stopped at the limit");
    c.eqM(x, st[threw ? stopEv + first : n], "state at the end", 1e-9);
    c.eqI(rec->log.size(), threw ? (killFirst ? stopEv : stopEv + 1) : nev, "events before stop");
    // rerun without limit
    maxh->setMaxNumSteps(100);
    rec->failAt = -1;
    x << 0.5, 1.25;
    in.integrate_n_steps(x, t0, n, dt, xs, ts);
    c.eqM(x, st[n], "rerun", 1e-9);
    c.eqI(xs.size(), nev, "rerun trajectory");
    for (int i = 0; i < nev; i++)
    {
        c.eqM(xs[i], st[i + first], "rerun trajectory", 1e-9);
        c.eq(ts[i], t0 + (i + first) * dt, "rerun times", 1e-9);
    }
    c.state(c.hist);
}
// ---- adaptive methods against the same odeint method with the configured tolerances
// (instantiated on std::vector with odeint's own range algebra, so that none of the library's Eigen glue is involved)
typedef std::vector<double> SV;
template <class S, class F>
static E adaptRef(S stepper, F rhs, E x0, double t0, double t1, double dt, Log& l)
{
    SV x = {x0(0), x0(1)};
    od::integrate_adaptive(stepper, rhs, x, t0, t1, dt, [&](const SV& a, double t) { l.push_back(TX(t, E(a[0], a[1]))); });
    return l.back().second;
}
MC_SUITE(adaptive, "3 adaptive methods x 2 right-hand sides, tolerance histories of 2 settings, intervals and initial steps; adaptive span and given-times integration")
{
    IntegrationType type = std::vector<IntegrationType>{ODE45, RK5VARIABLE, BULIRSCHSTOER}[c.choose(3)];
    int kind = c.choose(2);
    Integrator<2> in(std::make_shared<Auto>(kind), type);
    double ab = 1e-8, re = 1e-8;
    auto rhs = [&](const SV& a, SV& d, double t) {
        E v = f(kind, E(a[0], a[1]), t);
        d[0] = v(0);
        d[1] = v(1);
    };
    for (int r = 0; r < 2; r++)
    {
        int tol = type == BULIRSCHSTOER ? 0 : c.choose(3);
        if (tol)
        {
            ab = tol == 1 ? 1e-3 : 1e-11;
            re = tol == 1 ? 1e-4 : 1e-10;
            in.setApadativeErrorTolerances(ab, re);
            c.log() << "tol(" << ab << ") ";
        }
        double t0 = c.choose(2) ? 0 : -0.5, t1 = t0 + (c.choose(2) ? 0.3 : 2.0), dt = c.choose(2) ? 0.01 : 0.1;
        X x, x2, xt;
        x << 1.0 + r, -0.5;
        x2 = x;
        xt = x;
        Log l;
        E y;
        od::runge_kutta_dopri5<SV> dp;
        if (type == ODE45)
            y = adaptRef(od::make_controlled(ab, re, dp), rhs, x, t0, t1, dt, l);
        else if (type == RK5VARIABLE)
        {
            auto s = od::make_dense_output(ab, re, dp);
            s.initialize(SV{x(0), x(1)}, t0, dt);
            y = adaptRef(s, rhs, x, t0, t1, dt, l);
        }
        else
            y = adaptRef(od::bulirsch_stoer<SV>(), rhs, x, t0, t1, dt, l);
        StateVectorArray<2> xs;
        TimeArray ts;
        in.integrate_adaptive(x, t0, t1, xs, ts, dt);
        c.eqI(xs.size(), l.size(), "adaptive: number of points");
        c.eqI(ts.size(), l.size(), "adaptive: number of times");
        for (size_t i = 0; i < l.size(); i++)
        {
            c.eqM(xs[i], l[i].second, "adaptive states", 1e-9);
            c.eq(ts[i], l[i].first, "adaptive times", 1e-9);
        }
        c.eqM(x, y, "adaptive final state", 1e-9);
        c.eq(ts.front(), t0, "first time", 0);
        c.eq(ts.back(), t1, "last time", 1e-9);
        in.integrate_adaptive(x2, t0, t1, dt);
        c.eqM(x2, y, "adaptive final state (not recorded)", 1e-6);
        // accuracy against a fine RK4
        E z = xt;
        int N = 4000;
        Rhs g = [&](const E& a, double t) { return f(kind, a, t); };
        for (int i = 0; i < N; i++)
            z = stepRef(RK4, g, z, t0 + i * (t1 - t0) / N, (t1 - t0) / N);
        c.eqM(x, z, "adaptive accuracy", std::max(ab, re) * 500);
        // given times
        TimeArray tg;
        tg.push_back(t0);
        tg.push_back(t0 + 0.2);
        tg.push_back(t1);
        X x3 = xt;
        in.integrate_times(x3, tg, xs, dt);
        c.eqI(xs.size(), 3, "given times: number of points");
        c.eqM(xs[0], xt, "given times: first", 0);
        c.eqM(xs[2], z, "given times: last", std::max(ab, re) * 500);
        E zm = xt;
        for (int i = 0; i < N; i++)
            zm = stepRef(RK4, g, zm, t0 + i * 0.2 / N, 0.2 / N);
        c.eqM(xs[1], zm, "given times: middle", std::max(ab, re) * 500);
        c.step(3);
        c.state(mc::mix(mc::hd(x(0)), c.hist));
    }
}
typedef internal::StepperBase<Eigen::Matrix<double, 2, 1>> SB;
template <class S>
using OdeS = internal::StepperODEInt<S, Eigen::Matrix<double, 2, 1>>;
MC_SUITE(steppers, "10 steppers used directly without an observer: all histories of 2 (quick) / 3 (thorough) runs of 0..3 steps, constant or adaptive span, next to the same run with an observer")
{
    typedef Eigen::Matrix<double, 2, 1> M2;
    int kind = c.choose(2), which = c.choose(10);
    static const IntegrationType TY[] = {EULER, RK4, MODIFIED_MIDPOINT, RK78, EULERCT, RK4CT, ODE45, RK5VARIABLE, ODE45, BULIRSCHSTOER};
    auto make = [&]() -> SB* {
        switch (which)
        {
            case 0: return new OdeS<internal::euler_t<2>>();
            case 1: return new OdeS<internal::runge_kutta_4_t<2>>();
            case 2: return new OdeS<internal::modified_midpoint_t<2>>();
            case 3: return new OdeS<internal::runge_kutta_fehlberg78_t<2>>();
            case 4: return new internal::StepperEulerCT<M2>();
            case 5: return new internal::StepperRK4CT<M2>();
            case 6: return new internal::StepperODEIntControlled<internal::runge_kutta_dopri5_t<2>, M2>();
            case 7: return new internal::StepperODEIntDenseOutput<internal::runge_kutta_dopri5_t<2>, M2>();
            case 8: return new OdeS<internal::runge_kutta_dopri5_t<2>>();
            default: return new OdeS<internal::bulirsch_stoer_t<2>>();
        }
    };
    std::unique_ptr<SB> a(make()), b(make());
    IntegrationType type = TY[which];
    std::function<void(const M2&, M2&, double)> rhs = [&](const M2& x, M2& d, double t) { d = f(kind, x, t); };
    Rhs g = [&](const E& x, double t) { return f(kind, x, t); };
    M2 x(1.0, -0.75), y = x;
    for (int r = 0; r < (c.thorough ? 3 : 2); r++)
    {
        bool ct = which == 4 || which == 5, bs = which == 9, ad = which == 6 || which == 7 || bs;
        double t0 = c.choose(2) ? 0.0 : 1.5, dt = c.choose(2) ? 0.25 : 0.1;
        int mode = bs ? 2 : c.choose(ct ? 1 : ad ? 3 : 2), n = mode == 2 ? 1 + c.choose(3) : c.choose(4);
        double t1 = t0 + n * dt;
        if ((which == 6 || which == 7) && c.flip())
        {
            a->setAdaptiveErrorTolerances(1e-10, 1e-10);
            b->setAdaptiveErrorTolerances(1e-10, 1e-10);
        }
        Log obs;
        auto ob = [&](const M2& q, const double& t) { obs.push_back(TX(t, q)); };
        c.log() << "stepper " << which << " mode=" << mode << " n=" << n << " dt=" << dt << " t0=" << t0 << "; ";
        E z = x;
        if (mode == 0)
        {
            a->integrate_n_steps(rhs, x, t0, n, dt);
            b->integrate_n_steps(ob, rhs, y, t0, n, dt);
        }
        else if (mode == 1)
        {
            a->integrate_const(rhs, x, t0, t1, dt);
            b->integrate_const(ob, rhs, y, t0, t1, dt);
        }
        else
        {
            a->integrate_adaptive(rhs, x, t0, t1, 0.05);
            b->integrate_adaptive(ob, rhs, y, t0, t1, 0.05);
        }
        c.step(2);
        if (mode < 2)
        {
            for (int i = 0; i < n; i++)
                z = stepRef(type, g, z, t0 + i * dt, dt);
            c.eqM(x, z, "stepper without observer", 1e-9);
            c.eqM(y, z, "stepper with observer", 1e-9);
        }
        else
        {
            for (int i = 0; i < 1000; i++)
                z = stepRef(RK4, g, z, t0 + i * (t1 - t0) / 1000, (t1 - t0) / 1000);
            c.eqM(x, z, "adaptive stepper without observer", 1e-5);
            c.eqM(y, x, "adaptive stepper with and without observer", 1e-7);
        }
        if (!obs.empty())
            c.eqM(obs.back().second, y, "last observed point", 1e-12);
        x = y;
        c.state(mc::mix(mc::hd(x(0)), mc::hd(x(1))));
    }
}
// ---- symplectic
template <size_t N>
struct Sym : public SymplecticSystem<N, N, 1>
{
    typedef StateVector<2 * N> XX;
    typedef Eigen::Matrix<double, 2 * N, 1> EE;
    typedef Eigen::Matrix<double, N, 1> H;
    struct Ctl : public Controller<2 * N, 1>
    {
        Ctl* clone() const override { return new Ctl(*this); }
        void computeControl(const XX& x, const double& t, U& u) override { u(0) = law(x, t); }
    };
    static double law(const EE& x, double t) { return 0.5 * x(0) - t * x(2 * N - 1) + 0.125 * x(N - 1); }
    bool ctl;
    Sym(bool k) : ctl(k)
    {
        if (ctl)
            this->setController(std::make_shared<Ctl>());
    }
    Sym* clone() const override { return new Sym(*this); }
    // separable but for the control; components coupled with each other
    static H pd(const H& v, double u)
    {
        H p;
        for (size_t i = 0; i < N; i++)
            p(i) = v(i) * (1 + 0.1 * v(N - 1 - i)) + 0.5 * u * (i + 1);
        return p;
    }
    static H vd(const H& p, double u)
    {
        H v;
        for (size_t i = 0; i < N; i++)
            v(i) = -2 * p(i) + 0.25 * i * p(0) + u;
        return v;
    }
    void computePdot(const XX& x, const StateVector<N>& v, const U& u, StateVector<N>& p) override { p = pd(v, u(0)); }
    void computeVdot(const XX& x, const StateVector<N>& p, const U& u, StateVector<N>& v) override { v = vd(p, u(0)); }
};
template <size_t N>
struct SymRec : public EventHandler<2 * N>
{
    bool sub;
    std::vector<std::pair<double, Eigen::VectorXd>> log;
    explicit SymRec(bool s) : sub(s) {}
    bool callOnSubsteps() override { return sub; }
    bool checkEvent(const StateVector<2 * N>& x, const double& t) override { return true; }
    void handleEvent(const StateVector<2 * N>& x, const double& t) override { log.push_back({t, x}); }
    void reset() override { log.clear(); }
};
template <size_t N, class I>
static void symplectic(mc::Ctx& c, bool rk)
{
    typedef typename Sym<N>::EE EE;
    bool ctl = c.flip();
    auto sys = std::make_shared<Sym<N>>(ctl);
    auto step = std::make_shared<SymRec<N>>(false), sub = std::make_shared<SymRec<N>>(true);
    typename I::EventHandlerPtrVector h;
    int handlers = c.choose(3);  // none, one, two
    std::unique_ptr<I> in;
    if (handlers == 2)
    {
        h.push_back(step);
        h.push_back(sub);
        in.reset(new I(sys, h));
    }
    else if (handlers == 1)
        in.reset(new I(sys, step));
    else
        in.reset(new I(sys));
    // McLachlan's symmetric B3A Runge-Kutta-Nystroem coefficients
    static const double a[6] = {0.40518861839525227722, -0.28714404081652408900, 0.5 - (0.40518861839525227722 - 0.28714404081652408900), 0.5 - (0.40518861839525227722 - 0.28714404081652408900), -0.28714404081652408900, 0.40518861839525227722};
    static const double b1 = -3.0 / 73.0, b2 = 17.0 / 59.0, b3 = 1.0 - 2.0 * (b1 + b2);
    static const double b[6] = {b1, b2, b3, b2, b1, 0};
    StateVectorArray<2 * N> xs;
    TimeArray ts;
    int runs = c.thorough ? 3 : 2;
    for (int r = 0; r < runs; r++)
    {
        if (r && c.flip())
        {
            c.log() << "copy ";
            in.reset(new I(*in));
        }
        double dt = c.choose(2) ? 0.25 : 0.125, t0 = c.choose(2) ? 0.0 : 1.5;
        int n = c.choose(4);
        bool recd = c.flip();
        c.log() << "run(n=" << n << ",dt=" << dt << ",t0=" << t0 << ",recorded=" << recd << ") ";
        StateVector<2 * N> x;
        for (size_t i = 0; i < 2 * N; i++)
            x(i) = i < N ? 1 + 0.5 * r - 0.25 * i : -0.75 + 0.5 * (i - N);
        std::vector<EE> st(1, EE(x));
        EE cur = x;
        for (int i = 0; i < n; i++)
        {
            double t = t0 + i * dt;
            for (int s = 0; s < (rk ? 6 : 1); s++)
            {
                double as = rk ? a[s] : 1, bs = rk ? b[s] : 1;
                cur.template head<N>() += (as * dt * Sym<N>::pd(cur.template tail<N>(), ctl ? Sym<N>::law(cur, t) : 0)).eval();
                cur.template tail<N>() += (bs * dt * Sym<N>::vd(cur.template head<N>(), ctl ? Sym<N>::law(cur, t) : 0)).eval();
            }
            st.push_back(cur);
        }
        in->reset();
        recd ? in->integrate_n_steps(x, t0, n, dt, xs, ts) : in->integrate_n_steps(x, t0, n, dt);
        c.step(n + 1);
        c.eqM(x, cur, "symplectic final state", 1e-9);
        if (recd)
        {
            c.eqI(xs.size(), n + 1, "symplectic trajectory");
            c.eqI(ts.size(), n + 1, "symplectic times");
            for (int i = 0; i <= n; i++)
            {
                c.eqM(xs[i], st[i], "symplectic trajectory", 1e-9);
                c.eq(ts[i], t0 + i * dt, "symplectic times", 1e-9);
            }
        }
        if (handlers > 0)
        {
            c.eqI(step->log.size(), n, "step events of a symplectic integrator");
            for (int i = 0; i < n; i++)
            {
                c.eq(step->log[i].first, t0 + (i + 1) * dt, "time of a step event", 1e-9);
                c.eqM(step->log[i].second, st[i + 1], "state of a step event", 1e-9);
            }
        }
        if (handlers > 1)
        {
            c.eqI(sub->log.size(), n, "substep events of a symplectic integrator");
            for (int i = 0; i < n; i++)
            {
                c.eq(sub->log[i].first, t0 + i * dt, "time of a substep event", 1e-9);
                c.eqM(sub->log[i].second, st[i], "state of a substep event", 1e-9);
            }
        }
        c.state(mc::mix(mc::hd(x(0)), c.hist));
    }
}
MC_SUITE(symplectic, "symplectic Euler and symplectic RK, 1+1 and 2+2 states, with and without time-varying feedback, 0..2 event handlers; all histories of 2/3 runs with 0..3 steps, 2 step sizes, 2 start times, recorded/unrecorded, copy in between")
{
    switch (c.choose(4))
    {
        case 0: return symplectic<1, IntegratorSymplecticEuler<1, 1, 1>>(c, false);
        case 1: return symplectic<1, IntegratorSymplecticRk<1, 1, 1>>(c, true);
        case 2: return symplectic<2, IntegratorSymplecticEuler<2, 2, 1>>(c, false);
        default: return symplectic<2, IntegratorSymplecticRk<2, 2, 1>>(c, true);
    }
}
