// P25: joint trajectory generation, joint controllers, actuators, Jacobian measures
// MC_LIBS: -llapack -lblas
#include <ct/core/core.h>
#include <ct/rbd/common/SimpleArmTrajectoryGenerator.h>
#include <ct/rbd/common/SingleDOFTrajectoryGenerator.h>
#include <ct/rbd/common/SpatialForceVector.h>
#include <ct/rbd/common/math/JacobiSingularity.h>
#include <ct/rbd/robot/actuator/SEADynamicsFirstOrder.h>
#include <ct/rbd/robot/actuator/SEADynamicsFirstOrder-impl.h>
#include <ct/rbd/robot/actuator/SecondOrderActuatorDynamics.h>
#include <ct/rbd/robot/actuator/SecondOrderActuatorDynamics-impl.h>
#include <ct/rbd/robot/control/JointPositionPIDController.h>
#include <ct/rbd/robot/control/JointPositionPIDController-impl.h>
#include <ct/rbd/robot/control/SelectionMatrix.h>
#include <ct/rbd/robot/control/SelectionMatrix-impl.h>
#include <ct/rbd/robot/kinematics/RBDDataMap.h>
#include "mc.h"
#include "mc_file.h"
using namespace ct::core;
using namespace ct::rbd;
typedef Eigen::Matrix<double, 2, 1> V2;

// time-optimal rest-to-rest profile with speed and acceleration limits: phase-wise constant acceleration, integrated
struct Profile
{
    double x0, xT, s, a, ta, th;  // acceleration time, hold time
    Profile(double x0, double xT, double v, double acc) : x0(x0), xT(xT), s(xT < x0 ? -1 : 1), a(acc)
    {
        double d = std::fabs(xT - x0);
        ta = v / acc;
        if (acc * ta * ta >= d)
            ta = std::sqrt(d / acc), th = 0;
        else
            th = (d - acc * ta * ta) / v;
    }
    double T() const { return 2 * ta + th; }
    void at(double t, double& x, double& v) const
    {
        double p = 0, q = 0;  // position, speed
        double t1 = std::min(t, ta);
        p += 0.5 * a * t1 * t1, q = a * t1;
        double t2 = std::min(std::max(t - ta, 0.0), th);
        p += q * t2;
        double t3 = std::min(std::max(t - ta - th, 0.0), ta);
        p += q * t3 - 0.5 * a * t3 * t3, q -= a * t3;
        x = x0 + s * p, v = s * q;
    }
};
MC_SUITE(single_dof, "all rest-to-rest motions from tables (5x5 end points, 4 speed and 3 acceleration limits), set up fresh or after another motion, 40 query times around every phase change in both orders")
{
    double X[5] = {0, 1, -1.5, 4, -20};
    double V[4] = {0.5, 1, 2, 10}, A[3] = {0.5, 2, 8};
    int i = c.choose(5), j = c.choose(5), k = c.choose(4), l = c.choose(3);
    int how = c.choose(4);
    SingleDOFTrajectoryGenerator g;
    Profile p(X[i], X[j], V[k], A[l]);
    double T;
    if (how == 0)
        T = g.setup(X[i], X[j], V[k], A[l]);
    else if (how == 1)
        g = SingleDOFTrajectoryGenerator(X[i], X[j], V[k], A[l]), T = p.T();
    else
    {
        // a previous motion of either kind, possibly queried
        g.setup(3, how == 2 ? 2.5 : -40, 2, 1);
        double x, v;
        g.queryTrajectory(1.0, x, v);
        T = g.setup(X[i], X[j], V[k], A[l]);
    }
    c.eq(T, p.T(), "duration", 1e-9);
    std::vector<double> ts;
    for (double b : {0.0, p.ta, p.ta + p.th, p.T()})
        for (double d : {-0.25, -1e-3, 0.0, 1e-3, 0.1})
            if (b + d >= 0)
                ts.push_back(b + d);
    for (int n = 0; n <= 10; n++)
        ts.push_back(p.T() * n / 10);
    ts.push_back(p.T() + 100);
    if (c.flip())
        std::reverse(ts.begin(), ts.end());
    for (double t : ts)
    {
        double x = 99, v = 99, rx, rv;
        g.queryTrajectory(t, x, v);
        p.at(t, rx, rv);
        if (t > p.T())
            rx = X[j], rv = 0;
        c.eq(x, rx, "position", 1e-9);
        c.eq(v, rv, "velocity", 1e-7);
        c.check(std::fabs(v) <= V[k] * (1 + 1e-9), "speed limit");
        c.check(x >= std::min(X[i], X[j]) - 1e-9 && x <= std::max(X[i], X[j]) + 1e-9, "no overshoot");
        c.step();
    }
    double x, v;
    c.throws([&] { g.queryTrajectory(-0.1, x, v); }, "negative time");
    c.state(c.hist);
}
MC_SUITE(arm, "2 joints, all motions from tables, 3 sampling times, first or second motion of the generator: equidistant samples of every joint's profile, ending when the last joint has arrived")
{
    V2 vm, am;
    vm << c.pick<double>({0.5, 2}), 1;
    am << 2, c.pick<double>({0.5, 4});
    SimpleArmTrajectoryGenerator<2> g(vm, am);
    V2 a, b;
    a << c.pick<double>({0, 1}), c.pick<double>({0, -2.5});
    b << c.pick<double>({0, 1, -1.7}), c.pick<double>({0, 3.3});
    double ts = c.pick<double>({0.02, 0.3, 1});
    mc::Quiet quiet;
    if (c.flip())
        g.generateTrajectory(b, V2(9, -9), 0.5);
    StateTrajectory<4> tr = ts == 0.02 ? g.generateTrajectory(a, b) : g.generateTrajectory(a, b, ts, c.flip());
    std::vector<Profile> p = {Profile(a(0), b(0), vm(0), am(0)), Profile(a(1), b(1), vm(1), am(1))};
    double T = std::max(p[0].T(), p[1].T());
    c.check(tr.size() >= 1, "not empty");
    for (size_t n = 0; n < tr.size(); n++)
    {
        double t = tr.getTimeArray()[n];
        c.eq(t, n * ts, "sampling time", 1e-9);
        for (int j = 0; j < 2; j++)
        {
            double x, v;
            p[j].at(t, x, v);
            c.eq(tr.getDataArray()[n](j), x, "joint position", 1e-9);
            c.eq(tr.getDataArray()[n](2 + j), v, "joint velocity", 1e-7);
        }
        c.step();
    }
    auto& last = tr.getDataArray()[tr.size() - 1];
    for (int j = 0; j < 2; j++)
    {
        c.eq(last(j), b(j), "final joint position", 1e-6);
        c.eq(last(2 + j), 0, "final joint velocity", 1e-6);
    }
    c.check((tr.size() - 1) * ts < T + 1.5 * ts, "no more samples than needed");
    c.state(c.hist);
}

// ---- joint PID control
struct RefPid
{
    double kp, ki, kd, dt, Imax, umax, umin, des, ddes, I = 0;
    static double clamp(double v, double lo, double hi) { return v < lo ? lo : v > hi ? hi : v; }
    double run(double x, double xd)
    {
        double e = des - x;
        if (ki > 0)
            I += ki * e * dt;
        I = clamp(I, -Imax, Imax);
        return clamp(kp * e + I + kd * (ddes - xd), umin, umax);
    }
};
MC_SUITE(joint_pid, "2 joints with different or equal parameters and set-points; all sequences of 4 (quick) / 5 (thorough) operations (control at 2 states, set-points of all joints or one, all gains, reset)")
{
    typedef JointPositionPIDController<2> PID;
    typedef PID::PIDController::parameters_t Par;
    V2 qd(0.5, -1), vd(0.25, 2);
    std::vector<Par> ps = {Par(2, 0.5, 0.25, 0.1, 0.2, 5, -4), Par(1, 3, 0, 0.05)};
    bool same = c.flip();
    if (same)
        ps[1] = ps[0];
    PID pid = same ? PID(qd, vd, ps[0]) : PID(qd, vd, ps);
    RefPid r[2];
    for (int i = 0; i < 2; i++)
        r[i] = RefPid{ps[i].k_p, ps[i].k_i, ps[i].k_d, ps[i].dt, ps[i].Imax, ps[i].uMax, ps[i].uMin, qd(i), vd(i), 0};
    double t = 0;
    int depth = c.thorough ? 5 : 4;
    for (int d = 0; d <= depth; d++)
    {
        int op = d == depth ? 0 : c.choose(7);
        c.step();
        switch (op)
        {
            case 0:
            case 1:
            {
                StateVector<4> x;
                if (op)
                    x << 0.75, -3, 1, 0.5;
                else
                    x << -2, 0.25, 0, -1.5;
                ControlVector<2> u;
                u.setConstant(99);
                pid.computeControl(x, t += 0.1, u);
                for (int i = 0; i < 2; i++)
                    c.eq(u(i), r[i].run(x(i), x(2 + i)), "joint torque", 1e-12);
                break;
            }
            case 2:
                pid.setDesiredPosition(V2(1.5, 0.75));
                r[0].des = 1.5, r[1].des = 0.75;
                break;
            case 3: pid.setDesiredPosition(-0.5, 0), r[0].des = -0.5; break;
            case 4: pid.setDesiredPosition(3.0, 1), r[1].des = 3; break;
            case 5:
                pid.setAllPIDGains(4, 1.5, 0.5);
                for (auto& q : r)
                    q.kp = 4, q.ki = 1.5, q.kd = 0.5;
                break;
            default:
                pid.reset();
                for (auto& q : r)
                    q.I = 0;
                break;
        }
    }
    c.state(c.hist);
}

// ---- actuators
MC_SUITE(actuators, "series-elastic and second-order actuators of 2 joints (common or per-joint parameters, also cloned): derivative, torque output and its inverse at all tabulated states")
{
    JointState<2> js;
    js.toImplementation() << c.pick<double>({0, 1.5}), -1, c.pick<double>({0, 2}), 0.5;
    ControlVector<2> u;
    u << c.pick<double>({0, -3}), 2;
    double t = c.pick<double>({0, 7});
    bool cl = c.flip();
    c.step(3);
    if (c.flip())
    {
        double k = c.pick<double>({10, 0.5}), rr = c.pick<double>({50, 2});
        std::shared_ptr<SEADynamicsFirstOrder<2>> a(new SEADynamicsFirstOrder<2>(k, rr));
        if (cl)
            a.reset(a->clone());
        StateVector<2> x, dx;
        x << c.pick<double>({-1, 0.25}), 2;
        dx.setConstant(99);
        a->computeActuatorDynamics(js, x, t, u, dx);
        ControlVector<2> out = a->computeControlOutput(js, x);
        StateVector<2> inv = a->computeStateFromOutput(js, u);
        for (int i = 0; i < 2; i++)
        {
            c.eq(dx(i), u(i) / rr, "gear velocity");
            c.eq(out(i), k * (x(i) - js.getPosition(i)), "spring torque");
            c.eq(inv(i), js.getPosition(i) + u(i) / k, "gear position for a torque");
        }
        c.eqM(a->computeControlOutput(js, inv), u, "output of the state computed from it");
        c.eqM(a->computeStateFromOutput(js, out), x, "state of the output computed from it");
    }
    else
    {
        typedef SecondOrderActuatorDynamics<2> SO;
        std::shared_ptr<SO> a;
        std::vector<double> w = {2, 2}, z = {0.5, 0.5}, g = {3, 3};
        int how = c.choose(4);
        bool gain = true;
        if (how == 0)
            a.reset(new SO(2, 0.5, 3));
        else if (how == 1)
            w = {2, 5}, z = {0.5, 1.25}, g = {3, 0.5}, a.reset(new SO(w, z, g));
        else if (how == 2)
            a.reset(new SO(2, 0.5)), gain = false;
        else
            w = {2, 5}, z = {0.5, 1.25}, a.reset(new SO(w, z)), gain = false;
        if (!gain)
            u.setZero();
        if (cl)
            a.reset(a->clone());
        StateVector<4> x, dx;
        x << c.pick<double>({-1, 0.25}), 2, c.pick<double>({0, 1.5}), -4;
        dx.setConstant(99);
        a->computeActuatorDynamics(js, x, t, u, dx);
        ControlVector<2> out = a->computeControlOutput(js, x);
        StateVector<4> inv = a->computeStateFromOutput(js, u);
        for (int i = 0; i < 2; i++)
        {
            c.eq(dx(i), x(2 + i), "actuator velocity");
            c.eq(dx(2 + i), g[i] * w[i] * w[i] * u(i) - 2 * z[i] * w[i] * x(2 + i) - w[i] * w[i] * x(i), "actuator acceleration");
            c.eq(out(i), x(i), "actuator output");
            c.eq(inv(i), u(i), "actuator state for an output");
            c.eq(inv(2 + i), 0, "actuator rate for an output");
        }
        std::vector<double> bad = {1};
        c.throws([&] { SO s(bad, z); }, "wrong number of parameters");
        c.throws([&] { SO s(w, bad); }, "wrong number of parameters");
        c.throws([&] { SO s(w, z, bad); }, "wrong number of parameters");
        c.throws([&] { SO s(bad, z, g); }, "wrong number of parameters");
        c.throws([&] { SO s(w, bad, g); }, "wrong number of parameters");
    }
    c.state(c.hist);
}

// ---- Jacobian measures
template <int R, int C>
static void jacRun(mc::Ctx& c, const std::vector<int>& vals)
{
    Eigen::Matrix<double, R, C> J;
    for (int i = 0; i < R * C; i++)
        J(i / C, i % C) = c.pick(vals);
    JacobiSingularity<R, C> s(J);
    Eigen::Matrix<double, R, R> G = J * J.transpose();
    double det = G.determinant();  // integer
    auto sv = s.calc_singular_values();
    // characteristic polynomial: eigenvalues of J J' are the squared singular values
    for (int i = 0; i < R; i++)
    {
        c.check(i == 0 || sv(i) <= sv(i - 1) + 1e-12, "singular values sorted");
        c.check(sv(i) >= -1e-12, "singular values non-negative");
        Eigen::Matrix<double, R, R> M = G - sv(i) * sv(i) * Eigen::Matrix<double, R, R>::Identity();
        c.eq(M.determinant(), 0, "singular value", 1e-6);
    }
    c.eq(sv.squaredNorm(), J.squaredNorm(), "sum of squared singular values", 1e-9);
    typedef JacobiSingularity<R, C> JSg;
    c.eq(s.calc_manipulability(JSg::SINGULAR_VALUES), std::sqrt(std::max(det, 0.0)), "manipulability (singular values)", 1e-6);
    if (std::round(det) > 0)
    {
        c.eq(s.calc_manipulability(), std::sqrt(det), "manipulability", 1e-6);
        c.eq(s.calc_manipulability(JSg::DIRECT), std::sqrt(det), "manipulability (direct)", 1e-6);
        c.eq(s.calc_condition_number(), sv(0) / sv(R - 1), "condition number", 1e-9);
        Eigen::Matrix<double, R, 1> v;
        for (int i = 0; i < R; i++)
            v(i) = 2.0 * i - 1.5;
        Eigen::Matrix<double, C, 1> q = s.calc_joint_vel(v);
        c.eqM(Eigen::VectorXd(J * q), v, "joint velocities produce the end-effector velocity", 1e-8);
        c.eqM(q, Eigen::VectorXd(J.transpose() * G.inverse() * v), "minimum-norm joint velocities", 1e-7);
    }
    c.step(4);
    c.state(c.hist);
}
MC_SUITE(jacobian_1x2, "all 1x2 Jacobians with entries -2..2") { jacRun<1, 2>(c, {-2, -1, 0, 1, 2}); }
MC_SUITE(jacobian_2x2, "all 2x2 Jacobians with entries -2..2") { jacRun<2, 2>(c, {-2, -1, 0, 1, 2}); }
MC_SUITE(jacobian_2x3, "all 2x3 Jacobians with entries in {-1,0,2}") { jacRun<2, 3>(c, {-1, 0, 2}); }

// ---- containers
MC_SUITE(containers, "spatial force vectors, joint data maps and selection matrices: every accessor after all sequences of 3 writes")
{
    switch (c.choose(3))
    {
        case 0:
        {
            typedef SpatialForceVector<double> F;
            Eigen::Matrix<double, 6, 1> r, o;
            r << 1, 2, 3, 4, 5, 6;
            o << -1, 0.5, 2, 0, 3, 8;
            F f(r);
            for (int d = 0; d < 3; d++)
            {
                int i = c.choose(3);
                c.step();
                switch (c.choose(8))
                {
                    case 0: f.torque()(i) = d, r(i) = d; break;
                    case 1: f.force()(i) = -d, r(3 + i) = -d; break;
                    case 2: f.toImplementation()(2 * i) = 9, r(2 * i) = 9; break;
                    case 3: f = F(f + o), r = (r + o).eval(); break;
                    case 4: f = F(f - o), r = (r - o).eval(); break;
                    case 5: f = F(f * 2.5), r = (r * 2.5).eval(); break;
                    case 6: f = F(f / 0.5), r = (r / 0.5).eval(); break;
                    default: f.setZero(), r.setZero(); break;
                }
                const F& k = f;
                c.eqM(k.toImplementation(), r, "stored vector", 0);
                c.eqM(Eigen::Vector3d(k.torque()), Eigen::Vector3d(r.head<3>()), "torque", 0);
                c.eqM(Eigen::Vector3d(k.force()), Eigen::Vector3d(r.tail<3>()), "force", 0);
                c.eqM(Eigen::Vector3d(f.torque()), Eigen::Vector3d(r.head<3>()), "torque", 0);
                c.eqM(Eigen::Vector3d(f.force()), Eigen::Vector3d(r.tail<3>()), "force", 0);
                c.eqI(f == r, true, "==");
                c.eqI(f != r, false, "!=");
                c.eqI(f == o, (r - o).norm() == 0, "== other");
            }
            break;
        }
        case 1:
        {
            typedef RBDDataMap<int, 3> M;
            std::vector<int> r(3, 4), r2(3, -1);
            M m(4), n(-1);
            for (int d = 0; d < 4; d++)
            {
                int i = c.choose(3);
                c.step();
                switch (c.choose(4))
                {
                    case 0: m[i] = d, r[i] = d; break;
                    case 1: n = m, r2 = r; break;
                    case 2: m = 10 + d, r.assign(3, 10 + d); break;
                    default:
                    {
                        M k(m);
                        m[i] = 77;
                        r2 = r;
                        r[i] = 77;
                        n = k;
                    }
                }
                const M &a = m, &b = n;
                for (int j = 0; j < 3; j++)
                {
                    c.eqI(a[j], r[j], "entry");
                    c.eqI(b[j], r2[j], "entry of the copy");
                    c.eqI(m[j], r[j], "entry");
                }
            }
            break;
        }
        default:
        {
            // floating base: 6 base coordinates come first
            SelectionMatrix<2, 8> f(true);
            SelectionMatrix<2, 4> x(false);
            SelectionMatrix<2, 8> g(false);
            SelectionMatrix<2, 8> h(f);
            if (c.flip())
                f.setIdentity(false), f.setIdentity(true);
            for (int i = 0; i < 2; i++)
                for (int j = 0; j < 8; j++)
                {
                    c.eq(f(i, j), j == 6 + i, "floating-base selection", 0);
                    c.eq(h(i, j), j == 6 + i, "copied selection", 0);
                    c.eq(g(i, j), j == 6 + i, "fixed-base selection", 0);
                    if (j < 4)
                        c.eq(x(i, j), j == 2 + i, "fixed-base selection", 0);
                }
            c.throws([] { SelectionMatrix<2, 4> y(true); }, "floating base with fewer than 6 coordinates");
        }
    }
    c.state(c.hist);
}
