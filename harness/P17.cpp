// P17: MPC time keeping, horizon modes and iteration bookkeeping
// MC_LIBS: -lipopt -llapack -lblas
#include "mpc_ref.h"
#include "mc_clock.h"
using namespace ct::optcon;

static bool horizonRef(MPC_MODE m, double T0, double minT, double since, double stop, double& T)
{
    double left = std::max(0.0, T0 - (since + stop));
    switch (m)
    {
        case CONSTANT_RECEDING_HORIZON: T = T0; return false;
        case FIXED_FINAL_TIME: T = left; return left == 0;
        case FIXED_FINAL_TIME_WITH_MIN_TIME_HORIZON: T = std::max(minT, left); return left <= minT;
        default: T = std::min(minT, left); return T == 0;
    }
}
static const MPC_MODE MODES[4] = {CONSTANT_RECEDING_HORIZON, FIXED_FINAL_TIME, FIXED_FINAL_TIME_WITH_MIN_TIME_HORIZON, RECEDING_HORIZON_WITH_FIXED_FINAL_TIME};

MC_SUITE(horizon_modes, "4 modes x initial horizons x minimum horizons x elapsed and forward times around every boundary, strategy re-parameterised between queries")
{
    mpc_settings s;
    MPC_MODE m = MODES[c.choose(4)];
    s.mpc_mode = MODES[c.choose(4)];
    double T0 = c.pick<double>({2.0, 0.5, 0.0});
    s.minimumTimeHorizonMpc_ = c.pick<double>({0.5, 1.0, 3.0});
    MpcTimeHorizon h(s, c.pick<double>({T0, 7.0}));
    double T = -1;
    h.computeNewTimeHorizon(0.25, 0.25, T);
    s.mpc_mode = m;
    h.updateSettings(s);
    h.updateInitialTimeHorizon(T0);
    for (int i = 0; i < 2; i++)
    {
        double a = c.pick<double>({0, 0.25, 1.0, 1.5, 2.0, 2.5}), b = c.pick<double>({0, 0.25, 0.5, 2.0});
        c.log() << "mode " << m << " T0=" << T0 << " min=" << s.minimumTimeHorizonMpc_ << " since=" << a << " stop=" << b;
        double W = 0;
        T = -1;
        bool want = horizonRef(m, T0, s.minimumTimeHorizonMpc_, a, b, W);
        bool got = h.computeNewTimeHorizon(a, b, T);
        c.step();
        c.eq(T, W, "new horizon");
        c.eqI(got, want, "final time reached");
        c.state(mc::mix(m, mc::hd(T) + got));
    }
}

// ---------------------------------------------------------------- reference time keeper
struct KeeperRef
{
    mpc_settings s;
    double T0;
    bool first = true, started = false;
    double now = 0;  // the clock in use
    double tStart = 0, tLast = 0, tFirst = 0, delay = 0, dmax = 0, dmin = 1e300, dsum = 0;
    bool final = false, edge = false;  // edge: so close to the boundary that rounding of the clock decides
    void init()
    {
        first = true;
        started = false;
        delay = dmax = dsum = 0;
        dmin = 1e300;
        final = false;
    }
    double apply() const
    {
        return 1e-6 * s.additionalDelayUs_ + (s.measureDelay_ ? s.delayMeasurementMultiplier_ * delay : 1e-6 * s.fixedDelayUs_);
    }
    void timings(double curT, double& T, double& a, double& b)
    {
        double sl = first ? 0 : now - tLast, sf = first ? 0 : now - tFirst;
        a = std::min(sl, curT);
        b = std::min(first ? sl : sl + apply(), curT);
        final = horizonRef(s.mpc_mode, T0, s.minimumTimeHorizonMpc_, sf, b, T);
        double left = T0 - (sf + b);
        edge = std::abs(left) < 1e-5 || std::abs(left - s.minimumTimeHorizonMpc_) < 1e-5;
    }
    void start()
    {
        tStart = now;
        started = true;
    }
    void stop()
    {
        delay = now - tStart;
        dmax = std::max(dmax, delay);
        dmin = std::min(dmin, delay);
        dsum += delay;
        tLast = now;
        if (first)
            tFirst = now;
        first = false;
    }
    double sincePrev() const { return first ? 0 : now - tLast; }
    double sinceFirst() const { return first ? 0 : now - tFirst; }
};
static mpc_settings pickSettings(mc::Ctx& c, bool ext, int kinds)
{
    mpc_settings s;
    s.useExternalTiming_ = ext;
    s.mpc_mode = MODES[c.choose(4)];
    s.minimumTimeHorizonMpc_ = 0.5;
    int k = kinds > 0 ? (int)c.choose(kinds) : -kinds;  // negative: that kind only
    s.fixedDelayUs_ = k == 1 || k == 2 ? 50000 : 0;
    s.additionalDelayUs_ = k == 2 || k == 3 ? 25000 : 0;
    s.measureDelay_ = !ext && k >= 3;
    s.delayMeasurementMultiplier_ = k == 4 ? 0.5 : 1.0;
    if (k >= 3)
        s.fixedDelayUs_ = 70000;  // ignored when measuring
    return s;
}
// all histories of keeper calls; ext: the time is handed in, otherwise a virtual system clock drives the timers
static void keeper(mc::Ctx& c, bool ext, int depth, int kinds)
{
    mc::VirtualClock clk(1700000000LL * 1000000);
    mpc_settings s = pickSettings(c, ext, kinds);
    double T0 = 1.0;
    auto strat = std::make_shared<MpcTimeHorizon>(s, T0);
    MpcTimeKeeper k(strat, s);
    KeeperRef r;
    r.s = s;
    r.T0 = T0;
    r.now = ext ? c.pick<double>({0.0, 3.0}) : 0.0;
    double a, b, T;
    c.log() << "mode " << s.mpc_mode << (ext ? " external" : " internal") << " fixed=" << s.fixedDelayUs_ << " add=" << s.additionalDelayUs_
            << " measure=" << s.measureDelay_ << " x" << s.delayMeasurementMultiplier_ << ": ";
    c.throws([&]() { k.computeNewTimings(r.now, T0, T, a, b); }, "timings of an uninitialised keeper");
    k.initialize();
    r.init();
    double curT = T0;
    double tol = ext ? 1e-9 : 2e-6;
    auto adv = [&](double d) {
        r.now += d;
        if (!ext)
            mc::VirtualClock::advance(d);
    };
    auto hand = [&]() { return ext ? r.now : 12345.0; };
    for (int d = 0; d < depth; d++)
    {
        switch (c.choose(4))
        {
            case 0:  // timings
            {
                double dt = c.pick<double>({0.0, 0.3, 0.9});
                adv(dt);
                c.log() << "timings@" << r.now << " ";
                double wT, wa, wb;
                r.timings(curT, wT, wa, wb);
                {
                    std::stringstream sink;
                    auto* old = std::cerr.rdbuf(sink.rdbuf());
                    k.computeNewTimings(hand(), curT, T, a, b);
                    std::cerr.rdbuf(old);
                }
                c.eq(a, wa, "forward integration start", tol);
                c.eq(b, wb, "forward integration stop", tol);
                c.eq(T, wT, "new time horizon", tol);
                if (!r.edge)
                    c.eqI(k.finalPointReached(), r.final, "final point reached");
                curT = wT;
                break;
            }
            case 1:  // a solve
            {
                double dt = c.pick<double>({0.0, 0.05, 0.2});
                c.log() << "solve(" << dt << ") ";
                k.startDelayMeasurement(hand());
                r.start();
                adv(dt);
                k.stopDelayMeasurement(hand());
                r.stop();
                c.eq(k.getMeasuredDelay(), r.delay, "measured delay", tol);
                c.eq(k.getMaxMeasuredDelay(), r.dmax, "maximum delay", tol);
                c.eq(k.getMinMeasuredDelay(), r.dmin, "minimum delay", tol);
                c.eq(k.getSummedDelay(), r.dsum, "summed delay", tol);
                break;
            }
            case 2:  // queries
                adv(0.1);
                c.log() << "query ";
                break;
            default:
                c.log() << "initialize ";
                k.initialize();
                r.init();
                curT = T0;
        }
        c.step();
        c.eq(k.timeSincePreviousSuccessfulSolve(hand()), r.sincePrev(), "time since previous solve", tol);
        c.eq(k.timeSinceFirstSuccessfulSolve(hand()), r.sinceFirst(), "time since first solve", tol);
        c.state(mc::mix(c.hist, r.first));
    }
}
MC_SUITE(keeper_external, "4 modes x 3 delay settings, all histories of 4 calls (timings, solve, query, re-initialise) with external time stamps") { keeper(c, true, 4, 3); }
MC_SUITE(keeper_internal, "4 modes x 5 delay settings, all histories of 4 calls under a virtual system clock") { keeper(c, false, 4, 5); }
MC_SUITE_THOROUGH(keeper_internal_deep, "4 modes x 5 delay settings, all histories of 5 calls under a virtual system clock") { keeper(c, false, 5, 5); }

// ---------------------------------------------------------------- MPC on a scripted solver
struct SolverLog
{
    double T = 1.0;
    int iter = 0, prepares = 0, finishes = 0;
    bool ok = true;
    double solveTime = 0;
    Policy guess;
    bool hasGuess = false;
    ct::core::StateVector<NX> x0;
};
static SolverLog* LOG = nullptr;
struct StubSolver
{
    static const size_t STATE_D = NX, CONTROL_D = NU, POS_DIM = NX / 2, VEL_DIM = NX / 2;
    typedef double Scalar_t;
    typedef Policy Policy_t;
    typedef NLOptConSettings Settings_t;
    typedef ContinuousOptConProblem<NX, NU, double> OptConProblem_t;
    StubSolver(const OptConProblem_t& p, const Settings_t&) { LOG->T = p.getTimeHorizon(); }
    double getTimeHorizon() const { return LOG->T; }
    void changeTimeHorizon(double T) { LOG->T = T; }
    void changeInitialState(const ct::core::StateVector<NX>& x) { LOG->x0 = x; }
    void setInitialGuess(const Policy& p)
    {
        LOG->guess = p;
        LOG->hasGuess = true;
    }
    void prepareMPCIteration() { LOG->prepares++; }
    bool finishMPCIteration()
    {
        mc::VirtualClock::advance(LOG->solveTime);
        LOG->finishes++;
        if (LOG->ok)
            LOG->iter++;
        return LOG->ok;
    }
    static RefPolicy solutionRef() { return RefPolicy::make(std::max(1, (int)std::lround(LOG->T / DT)), LOG->iter + 1); }
    Policy getSolution() const { return solutionRef().real(); }
};
class Sys : public ct::core::ControlledSystem<NX, NU>
{
public:
    Sys* clone() const override { return new Sys(*this); }
    void computeControlledDynamics(const ct::core::StateVector<NX>& x, const double& t, const ct::core::ControlVector<NU>& u, ct::core::StateVector<NX>& d) override
    {
        d << 0.5 * x(1) + t, u(0);
    }
};
class ConstCtrl : public ct::core::Controller<NX, NU>
{
public:
    ConstCtrl* clone() const override { return new ConstCtrl(*this); }
    void computeControl(const ct::core::StateVector<NX>&, const double&, ct::core::ControlVector<NU>& u) override { u(0) = -3.0; }
};
static void mpcRun(mc::Ctx& c, bool ext, int depth, int kinds, bool extras)
{
    mc::VirtualClock clk(1700000000LL * 1000000);
    mc::Quiet q;
    SolverLog log;
    LOG = &log;
    mpc_settings s = pickSettings(c, ext, kinds);
    bool fwd = s.stateForwardIntegration_ = c.flip();
    double hf = s.stateForwardIntegration_dt_ = 0.0625;
    bool rk4 = false;
    s.stateForwardIntegratorType_ = ct::core::IntegrationType::EULERCT;
    s.postTruncation_ = c.flip();
    s.coldStart_ = extras ? c.flip() : false;
    double T0 = 1.0;
    ContinuousOptConProblem<NX, NU, double> prob;
    prob.setTimeHorizon(T0);
    prob.setNonlinearSystem(std::shared_ptr<Sys>(new Sys()));
    NLOptConSettings ns;
    ns.dt = DT;
    auto handler = std::make_shared<StateFeedbackPolicyHandler<NX, NU, double>>(DT);
    MPC<StubSolver> mpc(prob, ns, s, handler);
    KeeperRef r;
    r.s = s;
    r.T0 = T0;
    r.init();
    double base = ext ? c.pick<double>({0.0, 2.0}) : 0.0;
    r.now = base;
    RefPolicy init = RefPolicy::make(4, 0), cur = init;
    mpc.setInitialGuess(init.real());
    double curT = T0, tol = ext ? 1e-9 : 1e-5;
    bool first = true;
    c.log() << "mode " << s.mpc_mode << (ext ? " external" : " internal") << " fixed=" << s.fixedDelayUs_ << " add=" << s.additionalDelayUs_
            << " measure=" << s.measureDelay_ << " forward=" << fwd << " postTruncation=" << s.postTruncation_ << " cold=" << s.coldStart_ << ": ";
    auto adv = [&](double d) {
        r.now += d;
        if (!ext)
            mc::VirtualClock::advance(d);
    };
    auto hand = [&]() { return ext ? r.now : 500.0; };
    for (int d = 0; d < depth; d++)
    {
        if (extras && d > 0)
        {
            int e = c.choose(4);
            if (e == 1)
            {
                double T = c.pick<double>({0.5, 1.5});
                c.log() << "reset(" << T << ") ";
                mpc.resetMpc(T);
                r.T0 = T;
                r.init();
                first = true;
                curT = T;
                c.eq(log.T, T, "horizon of the solver after a reset");
            }
            else if (e == 2)
            {
                s.mpc_mode = MODES[(s.mpc_mode + 1 + c.choose(2)) % 4];
                s.minimumTimeHorizonMpc_ = 0.75;
                s.additionalDelayUs_ = 100000;
                if (fwd && c.flip())
                {
                    s.stateForwardIntegratorType_ = ct::core::IntegrationType::RK4CT;
                    s.stateForwardIntegration_dt_ = hf = 0.125;
                    rk4 = true;
                }
                c.log() << "updateSettings(mode " << s.mpc_mode << (rk4 ? ", RK4" : "") << ") ";
                mpc.updateSettings(s);
                r.s = s;
            }
            else if (e == 3)
            {
                c.log() << "setTimeHorizonStrategy ";
                mpc.setTimeHorizonStrategy(std::make_shared<MpcTimeHorizon>(s, 3.0));
                r.T0 = 3.0;
            }
        }
        adv(c.pick<double>({0.0, 0.3, 0.8}));
        c.log() << "prepare@" << r.now << " ";
        double T, a, b;
        if (first)
            r.init();
        r.timings(curT, T, a, b);
        {
            std::stringstream sink;
            auto* old = std::cerr.rdbuf(sink.rdbuf());
            mpc.prepareIteration(hand());
            std::cerr.rdbuf(old);
        }
        curT = T;
        c.eq(log.T, T, "horizon handed to the solver", tol);
        c.eqI(mpc.timeHorizonReached(), r.final, "final time reached");
        RefPolicy prev = cur;
        if (s.coldStart_)
            cur = init;
        else
            cur.warm(b, T);
        c.check(log.hasGuess, "solver has a guess");
        cur.compare(c, log.guess, "warm start");
        c.eqI(log.prepares, d + 1, "prepared iterations");
        // measurement and solve
        double gap = ext ? c.pick<double>({0.0, 0.337}) : 0.0;
        adv(gap);
        double st = ext ? 0.0 : c.pick<double>({0.0, 0.2});
        log.solveTime = st;
        log.ok = c.flip();
        bool ownCtrl = extras && fwd ? c.flip() : false;
        ct::core::StateVector<NX> x;
        x << 0.75, -1.25 - d;
        double xts = ext ? r.now : 40.0 + d;
        r.start();
        Policy out;
        double ts = -1;
        double hBefore = log.T;
        bool ok = mpc.finishIteration(x, xts, out, ts, ownCtrl ? std::shared_ptr<ct::core::Controller<NX, NU>>(new ConstCtrl()) : nullptr);
        r.now += st;  // the stub advanced the clock
        c.log() << "finish(" << (log.ok ? "ok" : "failed") << ", " << st << " s) ";
        c.eqI(ok, log.ok, "success flag");
        // state handed to the solver
        Eigen::Vector2d xr = x;
        if (fwd && !first)
        {
            int n = std::max(0, (int)std::lround((b - a) / hf));
            auto rhs = [&](const Eigen::Vector2d& y, double t) {
                int idx = std::min((int)std::floor(t / DT + 1e-9), (int)prev.u.size() - 1), ix = std::min((int)std::floor(t / DT + 1e-9), (int)prev.x.size() - 1);
                double u = ownCtrl ? -3.0 : prev.u[idx] + prev.L[idx].dot(y - prev.x[ix]);
                return Eigen::Vector2d(0.5 * y(1) + t, u);
            };
            double t = a;
            for (int i = 0; i < n; i++, t += hf)
                if (!rk4)
                    xr += hf * rhs(xr, t);
                else
                {
                    Eigen::Vector2d k1 = rhs(xr, t), k2 = rhs(xr + 0.5 * hf * k1, t + 0.5 * hf), k3 = rhs(xr + 0.5 * hf * k2, t + 0.5 * hf), k4 = rhs(xr + hf * k3, t + hf);
                    xr += hf / 6.0 * (k1 + 2 * k2 + 2 * k3 + k4);
                }
        }
        bool nearGrid = false;  // times that coincide with a policy switch up to rounding are not compared
        if (fwd && !first)
            for (double t = a; t < b + hf; t += 0.0625)
                nearGrid |= std::fabs(t / DT - std::round(t / DT)) < 1e-3 && std::fabs(t / DT - std::round(t / DT)) > 1e-12;
        if (!nearGrid)
            c.eqM(log.x0, xr, "state handed to the solver", 1e-4);
        double want = xts;
        if (ok)
        {
            want += b - a;
            cur = StubSolver::solutionRef();
            double dtp = first ? 0.0 : r.now - r.tLast;
            if (s.postTruncation_ && dtp > b + 1e-9 && !first)
            {
                if (s.coldStart_)
                    ;  // the base handler truncates nothing
                else
                    want += cur.truncate(dtp - b);
            }
        }
        r.stop();
        if (first)
            want += r.delay;
        first = false;
        cur.compare(c, out, "returned policy");
        if (!(s.coldStart_ && s.postTruncation_))
            c.eq(ts, want, "time stamp of the policy", tol);
        c.eq(mpc.timeSinceFirstSuccessfulSolve(hand()), r.sinceFirst(), "time since first solve", tol);
        c.eq(log.T, hBefore, "horizon unchanged by finishing");
        c.step(2);
        c.state(mc::mix(c.hist, first));
    }
    LOG = nullptr;
}
MC_SUITE(mpc_external, "MPC on a scripted solver: 4 modes x 3 delay settings x forward integration x post-truncation, all histories of 2 iterations with external time stamps")
{
    mpcRun(c, true, 2, 3, false);
}
MC_SUITE(mpc_internal, "MPC on a scripted solver: 4 modes x 5 delay settings x forward integration x post-truncation, all histories of 2 iterations under a virtual clock")
{
    mpcRun(c, false, 2, 5, false);
}
MC_SUITE(mpc_reconfigure, "MPC on a scripted solver with resets, setting updates, strategy changes, cold starts and custom forward controllers: all histories of 2 iterations")
{
    mpcRun(c, c.flip(), 2, -2, true);
}
MC_SUITE(mpc_three, "MPC on a scripted solver, fixed and additional delay: all histories of 3 iterations")
{
    mpcRun(c, true, 3, -2, false);
}
MC_SUITE_THOROUGH(mpc_reconfigure_deep, "all histories of 3 iterations with reconfiguration") { mpcRun(c, c.flip(), 3, -2, true); }
MC_SUITE_THOROUGH(mpc_three_all, "all histories of 3 iterations without reconfiguration, 3 delay settings") { mpcRun(c, true, 3, 3, false); }
MC_SUITE_THOROUGH(mpc_reconfigure_all, "all histories of 2 iterations with reconfiguration, 3 delay settings") { mpcRun(c, c.flip(), 2, 3, true); }

MC_SUITE(settings_conflict, "external timing together with measured delays is rejected, at construction and later")
{
    SolverLog log;
    LOG = &log;
    mc::Quiet q;
    mpc_settings good, bad;
    bad.useExternalTiming_ = bad.measureDelay_ = true;
    ContinuousOptConProblem<NX, NU, double> prob;
    prob.setTimeHorizon(1.0);
    prob.setNonlinearSystem(std::shared_ptr<Sys>(new Sys()));
    NLOptConSettings ns;
    ns.dt = DT;
    auto handler = std::make_shared<StateFeedbackPolicyHandler<NX, NU, double>>(DT);
    c.step();
    if (c.flip())
        c.throws([&]() { MPC<StubSolver> m(prob, ns, bad, handler); }, "conflicting timing settings");
    else
    {
        MPC<StubSolver> m(prob, ns, good, handler);
        c.throws([&]() { m.updateSettings(bad); }, "conflicting timing settings");
    }
    LOG = nullptr;
}
