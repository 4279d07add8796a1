// P26: threaded simulation of a controlled system under a controlled scheduler and a virtual clock
// MC_LIBS: -Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=__cxa_guard_acquire,--wrap=__cxa_guard_release -rdynamic -ldl
// MC_SAN: -O1 -g1 -no-pie -fno-pie
// MC_INSTR: -fsanitize=thread
// MC_SRCS: lib/sched_rt.cpp
// MC_SHARDS: 16
// MC_SHARDS_THOROUGH: 64
#include "mc.h"
#include "mc_file.h"
#include <ct/core/core.h>
#include <mutex>
#include "sched_rt.h"
using namespace ct::core;

static mc::Ctx* gCtx = nullptr;
static int schedChoose(int n)
{
    try
    {
        return gCtx->choose(n);
    } catch (const mc::Divergence& d)
    {
        fprintf(stderr, "DIVERGENCE %s\n", d.msg.c_str());
        _exit(4);
    }
}
static StateVector<2> rhs(const StateVector<2>& x, double t, double u)
{
    StateVector<2> d;
    d << x(1) + 0.3 * t, -2 * x(0) - 0.5 * x(1) + u;
    return d;
}
struct Sys : ControlledSystem<2, 1>
{
    typedef double SCALAR;
    static const size_t STATE_DIM = 2;
    static const size_t CONTROL_DIM = 1;
    double scratch = 0;
    Sys(std::shared_ptr<Controller<2, 1>> c) : ControlledSystem<2, 1>(c) {}
    Sys* clone() const override { return new Sys(*this); }
    void computeControlledDynamics(const StateVector<2>& x, const Time& t, const ControlVector<1>& u, StateVector<2>& d) override
    {
        scratch = x(0);
        d = rhs(x, t, u(0));
    }
};
struct Entry
{
    double t;
    StateVector<2> x;
    double u;  // in force from here on
    int64_t wall;
};
// the documented way of using the simulator: the controller thread publishes a controller, the simulation installs it
struct Sim : ControlSimulator<Sys>
{
    typedef ControlSimulator<Sys> Base;
    std::vector<Entry> sys;
    std::vector<Entry> ctrl;
    int prepared = 0, finished = 0, maxCtrl = 1000, stopAfter = -1;
    Sim(double sdt, double cdt, const StateVector<2>& x0, std::shared_ptr<Sys> s) : Base(sdt, cdt, x0, s)
    {
        sys.reserve(64);
        ctrl.reserve(256);
    }
    Sim(const Sim& o) : Base(o)
    {
        sys.reserve(64);
        ctrl.reserve(256);
    }
    double input(const std::shared_ptr<Controller<2, 1>>& c)
    {
        ControlVector<1> u;
        c->computeControl(StateVector<2>::Zero(), 0, u);
        return u(0);
    }
    void finishSystemIteration(Time t) override
    {
        StateVector<2> x = x_;
        control_mtx_.lock();
        system_->setController(controller_);
        control_mtx_.unlock();
        std::shared_ptr<Controller<2, 1>> cur;
        system_->getController(cur);
        sys.push_back(Entry{t, x, input(cur), sched::now()});
        if ((int)sys.size() == stopAfter)
            stop();
    }
    void prepareControllerIteration(Time) override { prepared++; }
    void finishControllerIteration(Time t) override
    {
        state_mtx_.lock();
        StateVector<2> x = x_;
        state_mtx_.unlock();
        finished++;
        ctrl.push_back(Entry{t, x, 0, sched::now()});
        ControlVector<1> u;
        u << 0.5 * finished;
        std::shared_ptr<Controller<2, 1>> n(new ConstantController<2, 1>(u));
        control_mtx_.lock();
        controller_ = n;
        control_mtx_.unlock();
    }
};
static StateVector<2> step(StateVector<2> x, double t, double h, double u, bool rk4)
{
    if (!rk4)
        return StateVector<2>(x + h * rhs(x, t, u));
    StateVector<2> k1 = rhs(x, t, u), k2 = rhs(StateVector<2>(x + h / 2 * k1), t + h / 2, u), k3 = rhs(StateVector<2>(x + h / 2 * k2), t + h / 2, u), k4 = rhs(StateVector<2>(x + h * k3), t + h, u);
    return StateVector<2>(x + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4));
}
static void simulate(mc::Ctx& c, int dev, bool twice)
{
    // (simulation step, control step): multiples, multiples up to rounding, and others
    static const std::vector<std::pair<double, double>> dts = {{0.1, 0.1}, {0.05, 0.1}, {0.1, 0.3}, {0.04, 0.1}, {0.03, 0.1}, {0.07, 0.1}};
    auto dt = dts[c.choose((int)dts.size())];
    double cdt = dt.second;
    int nd = c.choose(3);
    double duration = nd == 0 ? 0.5 * cdt : nd == 1 ? 2 * cdt : 3.4 * cdt;
    double tick = cdt * c.pick<double>({0.05, 0.6});
    bool rk4 = c.flip();
    int stopKind = c.choose(3);  // 0 no, 1 by the main thread, 2 from within the simulation
    double u0 = 0.25;
    StateVector<2> x0;
    x0 << 0.7, -0.4;
    c.log() << "sim_dt " << dt.first << " control_dt " << cdt << " duration " << duration << " tick " << tick << " rk4 " << rk4 << " stop " << stopKind << "\n";
    mc::Quiet quiet;
    sched::Options opt;
    opt.choose = schedChoose;
    opt.deviations = dev;
    opt.clockTick = (int64_t)(tick * 1e9);
    opt.objectSize = sizeof(Sim);
    gCtx = &c;
    std::vector<std::vector<Entry>> sys, ctrl;
    std::vector<int64_t> t0, t1;
    double original = u0;
    sched::begin(opt);
    {
        ControlVector<1> u;
        u << u0;
        std::shared_ptr<Sys> s(new Sys(std::shared_ptr<Controller<2, 1>>(new ConstantController<2, 1>(u))));
        std::unique_ptr<Sim> first(new Sim(dt.first, cdt, x0, s));
        std::unique_ptr<Sim> sim;
        bool copied = twice && c.flip();
        if (copied)
            sim.reset(new Sim(*first));  // the copy has its own system and controller
        else
            sim = std::move(first);
        for (int run = 0; run < (twice ? 2 : 1); run++)
        {
            sim->sys.clear();
            sim->ctrl.clear();
            sim->finished = 0;
            sim->stopAfter = stopKind == 2 && run == 0 ? 1 : -1;
            t0.push_back(sched::now());
            IntegrationType type = rk4 ? IntegrationType::RK4CT : IntegrationType::EULERCT;
            if (rk4)
                sim->simulate(duration, type);
            else
                sim->simulate(duration);
            type = IntegrationType::MODIFIED_MIDPOINT;  // the argument is the caller's again
            if (stopKind == 1 && run == 0)
                sim->stop();
            sim->finish();
            t1.push_back(sched::now());
            sched::ignore(true);
            sys.push_back(sim->sys);
            ctrl.push_back(sim->ctrl);
            sched::ignore(false);
        }
        sim->finish();  // nothing left to wait for
        if (copied)
        {
            std::shared_ptr<Controller<2, 1>> cur;
            s->getController(cur);
            original = first->input(cur);
        }
    }
    sched::Stats st = sched::end();
    c.step(st.points);
    c.log() << "points " << st.points << " switches " << st.switches << "\n";
    c.eq(original, u0, "controller of the original after simulating the copy");
    uint64_t h = 0;
    double u = u0;
    for (size_t run = 0; run < sys.size(); run++)
    {
        StateVector<2> x = x0;
        std::vector<StateVector<2>> seen(1, x0);
        int n = 0;
        int full = (int)std::floor(cdt / dt.first + 1e-6);
        double rest = cdt - full * dt.first;
        for (auto& e : sys[run])
        {
            double t = n * cdt;
            for (int i = 0; i < full; i++)
                x = step(x, t + i * dt.first, dt.first, u, rk4);
            if (rest > 1e-6 * dt.first)
                x = step(x, t + full * dt.first, rest, u, rk4);
            n++;
            c.eq(e.t, n * cdt, "simulated time", 1e-7);
            c.eqM(e.x, x, "state after " + std::to_string(n) + " control steps", 1e-6);
            c.check(e.wall - t0[run] >= (int64_t)(n * cdt * 1e9) - 1000, "simulation runs ahead of the clock");
            if (st.deviations == 0 && tick < 0.1 * cdt)
                c.check(e.wall - t0[run] <= (int64_t)((n * cdt + 4 * tick) * 1e9), "simulation lags behind the clock");
            u = e.u;
            seen.push_back(x);
            h = mc::mix(h, mc::hd(x(0)));
        }
        bool stopped = run == 0 && stopKind != 0;
        c.check(n <= (int)std::ceil(duration / cdt - 1e-9), "more simulation steps than fit into the duration");
        if (!stopped)
        {
            c.check(t1[run] - t0[run] >= (int64_t)(duration * 1e9), "simulation ended before its duration");
        }
        if (stopped && stopKind == 2)
            c.check(n <= 1, "simulation continues after stop()");
        // the controller sees the states in order, each as a whole
        size_t k = 0;
        for (auto& e : ctrl[run])
        {
            while (k < seen.size() && (e.x - seen[k]).cwiseAbs().maxCoeff() > 1e-9)
                k++;
            c.check(k < seen.size(), "controller got a state that was never reached, or an outdated one");
            c.check(e.t >= 0 && (e.t <= duration + 4 * tick + 20 * cdt), "time handed to the controller");
        }
        h = mc::mix(h, ctrl[run].size());
    }
    c.state(h);
}
MC_SUITE(simulation, "6 step size pairs x durations x clock speeds x integrators x stop commands, 2 (thorough 3) deviations from the default schedule") { simulate(c, c.thorough ? 3 : 2, false); }
MC_SUITE(repeated, "the same with two simulations of one simulator or of a copy, 1 (thorough 2) deviations") { simulate(c, c.thorough ? 2 : 1, true); }
