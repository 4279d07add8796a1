// P04: controllers
#include <ct/core/core.h>
#include "mc.h"
using namespace ct::core;
typedef StateVector<2> X;
typedef ControlVector<1> U1;
typedef ControlVector<2> U;
typedef FeedbackMatrix<2, 2> K;
// ---------------- PID
typedef PIDController<double> PID;
struct RefPID
{
    PID::parameters_t p;
    double des = 0, ddes = 0, prev = 0, I = 0;
    static double clamp(double v, double lo, double hi) { return v > hi ? hi : (v < lo ? lo : v); }
    double run(double x, bool hasD, double xd)
    {
        double e = des - x;
        I = clamp(I + p.k_i * p.dt * e, -p.Imax, p.Imax);
        double rate = hasD ? xd : (x - prev) / p.dt;
        prev = x;
        return clamp(p.k_p * e + I + p.k_d * (ddes - rate), p.uMin, p.uMax);
    }
};
MC_SUITE(pid, "4 parameter sets (with/without integral limit and saturation), all histories of 4 (quick) / 6 (thorough) operations out of 10 (two measurements with/without rate, set-points, initial state, reset, parameter changes, clone)")
{
    static const PID::parameters_t PS[4] = {{2.0, 0.5, 0.25, 0.1}, {2.0, 3.0, 0.25, 0.1, 0.35}, {2.0, 0.5, 0.25, 0.05, 100.0, 1.5, -0.75}, {0.5, 4.0, 0.0, 0.2, 0.3, 0.9, -10}};
    int k = c.choose(4);
    PID::setpoint_t sp(c.choose(2) ? 0.75 : -0.25, 0.5);
    std::shared_ptr<PID> pid(new PID(PS[k], sp)), other;
    RefPID r;
    r.p = PS[k];
    r.des = sp.stateDesired_;
    r.ddes = sp.stateDerivativeDesired_;
    double t = 0;
    int depth = c.thorough ? 6 : 4;
    for (int i = 0; i < depth; i++)
    {
        int op = c.choose(10);
        c.step();
        t += 0.1;
        switch (op)
        {
            case 0:
            case 1:
            {
                double x = op ? 1.75 : -0.5;
                c.log() << "u(" << x << ") ";
                c.eq(pid->computeControl(x, t), r.run(x, false, 0), "PID output", 1e-12);
                break;
            }
            case 2:
            {
                c.log() << "u(0.25,rate -1.5) ";
                c.eq(pid->computeControl(0.25, -1.5, t), r.run(0.25, true, -1.5), "PID output (rate given)", 1e-12);
                break;
            }
            case 3:
                c.log() << "des(1.25) ";
                pid->setDesiredState(1.25);
                r.des = 1.25;
                break;
            case 4:
                c.log() << "des(-1,0.125) ";
                pid->setDesiredState(-1.0, 0.125);
                r.des = -1;
                r.ddes = 0.125;
                break;
            case 5:
                c.log() << "init(0.5) ";
                pid->setInitialState(0.5);
                r.prev = 0.5;
                break;
            case 6:
                c.log() << "reset ";
                pid->reset();
                r.prev = r.I = 0;
                break;
            case 7:
                c.log() << "change ";
                pid->changeParameters(PS[(k + 1) % 4]);
                r.p = PS[(k + 1) % 4];
                break;
            case 8:
                c.log() << "Parameters() ";
                pid->Parameters().k_p = 5;
                pid->Parameters().Imax = 0.2;
                r.p.k_p = 5;
                r.p.Imax = 0.2;
                break;
            case 9:
                c.log() << "clone ";
                other = pid;
                pid.reset(other->clone());
                // disturbing the original afterwards must not be visible
                other->computeControl(33.0, t);
                other->setDesiredState(9);
                other->Parameters().k_i = -7;
                break;
        }
        c.state(mc::mix(mc::mix(mc::hd(r.I), mc::hd(r.prev)), mc::mix(mc::hd(r.des), mc::hd(r.p.k_p))));
    }
    c.eq(pid->computeControl(0.6, t), r.run(0.6, false, 0), "final PID output", 1e-12);
    c.eq(pid->computeControl(0.7, t), r.run(0.7, false, 0), "final PID output", 1e-12);
}
// ---------------- constant controllers
MC_SUITE(constant, "all histories of 3 (quick) / 5 (thorough) operations on constant, constant-feedback and step controllers; times around the step")
{
    U u0, ucur;
    u0 << 0.5, -2;
    bool def = c.flip();
    std::shared_ptr<ConstantController<2, 2>> cc(def ? new ConstantController<2, 2>() : new ConstantController<2, 2>(u0));
    ucur = def ? U(U::Zero()) : u0;
    K Kc;
    X xr;
    U uf = ucur;
    Kc.setZero();
    xr.setZero();
    std::shared_ptr<ConstantStateFeedbackController<2, 2>> sf;
    if (def)
        sf.reset(new ConstantStateFeedbackController<2, 2>());
    else
    {
        Kc << 1, -2, 0.5, 3;
        xr << 1, 0.25;
        sf.reset(new ConstantStateFeedbackController<2, 2>(uf, xr, Kc));
    }
    double gain = c.choose(2) ? -2.5 : 1.0, ts = c.choose(2) ? 0.5 : 1.0;
    std::shared_ptr<StepInputController> st(new StepInputController(StepInputController::Parameters(gain, ts)));
    StepInputController stDefault;
    int depth = c.thorough ? 5 : 3;
    for (int i = 0; i < depth; i++)
    {
        double t = c.pick<double>({-1.0, 0.5 - 1e-12, 0.5, 0.75, 1.0 - 1e-12, 1.0, 1e6});
        X x;
        x << t + 0.5, -0.25 * i;
        int op = c.choose(3);
        c.step();
        if (op == 1)
        {
            U n;
            n << 3 - i, 0.5 * i;
            cc->setControl(n);
            ucur = n;
            K K2 = Kc * 2 + K::Identity();
            if (i % 2)
            {
                sf->updateControlLaw(n, x, K2);
                Kc = K2;
            }
            else
            {
                sf->updateControlLaw(n, x);
                Kc.setZero();
            }
            uf = n;
            xr = x;
            x << 4, 5;
        }
        if (op == 2)
        {
            auto a = cc;
            auto b = sf;
            cc.reset(a->clone());
            sf.reset(b->clone());
            st.reset(st->clone());
            a->setControl(U::Constant(99));
            b->updateControlLaw(U::Constant(99), X::Zero());
        }
        U g;
        g.setConstant(7);
        cc->computeControl(x, t, g);
        c.eqM(g, ucur, "constant control", 0);
        g.setConstant(7);
        cc->computeControl(x, i, g);
        c.eqM(g, ucur, "constant control (discrete)", 0);
        c.eqM(cc->getControl(), ucur, "getControl", 0);
        c.eqM(cc->getDerivativeU0(x, t), Eigen::Matrix2d::Identity(), "getDerivativeU0", 0);
        U want = uf + Kc * (x - xr);
        sf->computeControl(x, t, g);
        c.eqM(g, want, "constant feedback", 1e-12);
        StateVector<1> xx;
        xx << -5;
        U1 s;
        s << 3;
        st->computeControl(xx, t, s);
        c.eq(s(0), t < ts ? 0 : gain, "step input", 0);
        stDefault.computeControl(xx, t, s);
        c.eq(s(0), t < 1 ? 0 : 1, "default step input", 0);
        c.state(c.hist);
    }
}
// ---------------- state feedback
struct RefTraj
{
    std::vector<double> t;
    std::vector<Eigen::MatrixXd> v;
    bool lin;
    Eigen::MatrixXd at(double q) const
    {
        if (q <= t.front())
            return v.front();
        for (size_t i = 0; i + 1 < v.size(); i++)
            if (q >= t[i] && q < t[i + 1])
                return lin ? Eigen::MatrixXd(v[i] + (q - t[i]) / (t[i + 1] - t[i]) * (v[i + 1] - v[i])) : v[i];
        return v.back();
    }
};
struct RefSFC
{
    RefTraj x, u, k;
};
static X xv(int i, double s)
{
    X x;
    x << s * i - 1, 0.5 * i * i;
    return x;
}
static U uv(int i, double s)
{
    U x;
    x << s - i, 2 * s * i;
    return x;
}
static K kv(int i, double s)
{
    K k;
    k << s * i, 1, -0.5 * i, s + i;
    return k;
}
static void query(mc::Ctx& c, StateFeedbackController<2, 2>& f, const RefSFC& r, double t)
{
    X x;
    x << 2, -3 + t;
    U u;
    u.setConstant(55);
    f.computeControl(x, t, u);
    Eigen::VectorXd want = r.u.at(t) + r.k.at(t) * (x - r.x.at(t));
    c.eqM(u, want, "state feedback at time", 1e-9);
}
static void indices(mc::Ctx& c, StateFeedbackController<2, 2>& f, const RefSFC& r)
{
    X x;
    x << 2, -3;
    U u;
    for (size_t n = 0; n < r.u.v.size(); n++)
    {
        f.computeControl(x, (int)n, u);
        c.eqM(u, r.u.v[n] + r.k.v[n] * (x - r.x.v[n]), "state feedback at index", 1e-12);
    }
    c.eqI(f.x_ref().size(), r.x.v.size(), "x_ref size");
    c.eqI(f.uff().size(), r.u.v.size(), "uff size");
    c.eqI(f.K().size(), r.k.v.size(), "K size");
    c.eqI(f.time().size(), r.x.t.size(), "time size");
    for (size_t i = 0; i < r.x.v.size(); i++)
    {
        c.eqM(f.x_ref()[i], r.x.v[i], "x_ref", 0);
        c.eq(f.time()[i], r.x.t[i], "time", 1e-12);
        c.eqM(f.getReferenceStateTrajectory()[i], r.x.v[i], "reference trajectory", 0);
    }
    const auto& cf = f;
    for (size_t i = 0; i < r.u.v.size(); i++)
    {
        c.eqM(f.uff()[i], r.u.v[i], "uff", 0);
        c.eqM(f.K()[i], r.k.v[i], "K", 0);
        c.eqM(cf.getFeedforwardTrajectory()[i], r.u.v[i], "uff trajectory", 0);
        c.eqM(cf.getFeedbackTrajectory()[i], r.k.v[i], "K trajectory", 0);
        c.eq(cf.getFeedforwardTrajectory().getTimeFromIndex(i), r.u.t[i], "uff time", 1e-12);
        c.eq(cf.getFeedbackTrajectory().getTimeFromIndex(i), r.k.t[i], "K time", 1e-12);
    }
}
MC_SUITE(state_feedback, "1..3 stages, both interpolations, two start times; all histories of 3 (quick) / 4 (thorough) operations: query at all grid/between/outside times, update (right and wrong sizes), clone, extraction")
{
    bool lin = c.flip();
    int n = 1 + c.choose(3);
    double t0 = c.choose(2) ? 0.0 : -1.2, dt = c.choose(2) ? 0.5 : 0.1;
    auto fill = [&](RefSFC& r, int nn, const std::vector<double>& t, double s, StateVectorArray<2>& xa, ControlVectorArray<2>& ua, FeedbackArray<2, 2>& ka) {
        r = RefSFC();
        r.x.lin = r.u.lin = r.k.lin = lin;
        xa.clear();
        ua.clear();
        ka.clear();
        for (int i = 0; i <= nn; i++)
        {
            r.x.t.push_back(t[i]);
            xa.push_back(xv(i, s));
            r.x.v.push_back(xv(i, s));
            if (i < nn)
            {
                ua.push_back(uv(i, s));
                ka.push_back(kv(i, s));
                r.u.t.push_back(t[i]);
                r.u.v.push_back(uv(i, s));
                r.k.t.push_back(t[i]);
                r.k.v.push_back(kv(i, s));
            }
        }
    };
    StateVectorArray<2> xa;
    ControlVectorArray<2> ua;
    FeedbackArray<2, 2> ka;
    RefSFC r;
    std::vector<double> tg;
    for (int i = 0; i <= n; i++)
        tg.push_back(t0 + i * dt);
    fill(r, n, tg, 1.5, xa, ua, ka);
    std::shared_ptr<StateFeedbackController<2, 2>> f(new StateFeedbackController<2, 2>(xa, ua, ka, dt, t0, lin ? LIN : ZOH));
    indices(c, *f, r);
    int depth = c.thorough ? 4 : 3;
    for (int i = 0; i < depth; i++)
    {
        int op = c.choose(5);
        c.step();
        switch (op)
        {
            case 0:
            {
                // grid point / midpoint / outside
                int N = r.x.t.size();
                int w = c.choose(2 * N + 1);
                double t;
                if (w == 2 * N)
                    t = r.x.t.back() + 10;
                else if (w == 2 * N - 1)
                    t = r.x.t.front() - 3;
                else
                    t = (w % 2) ? 0.25 * r.x.t[w / 2] + 0.75 * r.x.t[w / 2 + 1] : r.x.t[w / 2] + 1e-10;
                c.log() << "query(" << t << ") ";
                query(c, *f, r, t);
                break;
            }
            case 1:
            {
                // update with another, non-equidistant grid
                int n2 = 1 + c.choose(3);
                std::vector<double> t2;
                for (int k = 0; k <= n2; k++)
                    t2.push_back(0.3 + 0.2 * k * k + 0.1 * k);
                fill(r, n2, t2, -0.75 + i, xa, ua, ka);
                TimeArray ta;
                for (double d : t2)
                    ta.push_back(d);
                c.log() << "update(" << n2 << ") ";
                f->update(xa, ua, ka, ta);
                c.eqI(ta.size(), t2.size(), "time argument unchanged");
                indices(c, *f, r);
                break;
            }
            case 2:
            {
                // wrong sizes are rejected and change nothing
                int w = c.choose(3);
                RefSFC dummy;
                StateVectorArray<2> xb;
                ControlVectorArray<2> ub;
                FeedbackArray<2, 2> kb;
                std::vector<double> t2 = {0, 1, 2};
                fill(dummy, 2, t2, 9, xb, ub, kb);
                TimeArray ta;
                for (double d : t2)
                    ta.push_back(d);
                if (w == 0)
                    xb.pop_back();
                if (w == 1)
                    ub.push_back(uv(0, 1));
                if (w == 2)
                    kb.pop_back();
                c.log() << "badUpdate ";
                c.throws([&]() { f->update(xb, ub, kb, ta); }, "update with inconsistent sizes");
                indices(c, *f, r);
                break;
            }
            case 3:
            {
                c.log() << "clone ";
                auto old = f;
                f.reset(old->clone());
                old->getFeedforwardTrajectory()[0] = uv(40, 40);
                old->getReferenceStateTrajectory()[0] = xv(40, 40);
                old->getFeedbackTrajectory()[0] = kv(40, 40);
                indices(c, *f, r);
                break;
            }
            case 4:
            {
                c.log() << "extract ";
                StateTrajectory<2> xt;
                ControlTrajectory<2> ut;
                ut.push_back(uv(8, 8), 100.0, true);  // residue that has to disappear
                int N = r.x.v.size();
                std::vector<X, Eigen::aligned_allocator<X>> xs;
                for (int k = 0; k < N; k++)
                {
                    xs.push_back(xv(k + 1, 3));
                    xt.push_back(xs.back(), 5 + 2.0 * k, true);
                }
                f->extractControlTrajectory(xt, ut);
                c.eqI(ut.size(), N - 1, "extracted control size");
                for (int k = 0; k + 1 < N; k++)
                {
                    c.eqM(ut[k], r.u.v[k] + r.k.v[k] * (xs[k] - r.x.v[k]), "extracted control", 1e-12);
                    c.eq(ut.getTimeFromIndex(k), 5 + 2.0 * k, "extracted time", 0);
                }
                break;
            }
        }
        c.state(mc::mix(c.hist, 1));
    }
    for (double t : {r.x.t.front() - 1, r.x.t.front(), 0.5 * (r.x.t[0] + r.x.t[1]), r.x.t.back() + 1})
        query(c, *f, r, t);
}
