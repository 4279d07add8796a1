// P24: joint states and utility maths
// MC_LIBS: -llapack -lblas
#include <ct/core/core.h>
#include <ct/core/common/QuantizationNoise.h>
#include <ct/core/geometry/Ellipsoid.h>
#include <ct/core/geometry/Plane.h>
#include <ct/core/geometry/PlaneEstimator.h>
#include <ct/core/math/Inverses.h>
#include <ct/rbd/state/JointAcceleration.h>
#include <ct/rbd/state/JointState.h>
#include <map>
#include "mc.h"
#include "mc_clock.h"
using namespace ct::core;
typedef ct::rbd::JointState<2> JS;
typedef Eigen::Matrix<double, 4, 1> V4;
typedef Eigen::Matrix<double, 2, 1> V2;

static const double TP = 2 * M_PI;

// ---- joint states
MC_SUITE(joint_storage, "2 joints; all sequences of 3 (quick) / 4 (thorough) accesses (positions/velocities as block, by index, as vector; arithmetic; reset), every getter after each")
{
    JS s;
    V4 r = V4::Zero();
    if (c.flip())
    {
        r << 1, -2, 3, 0.5;
        s = JS(r);
    }
    for (int d = 0; d < (c.thorough ? 4 : 3); d++)
    {
        int i = c.choose(2);
        double v = c.pick<double>({-1.5, 4});
        V4 o;
        o << 0.25, 2, -1, v;
        switch (c.choose(9))
        {
            case 0: s.getPosition(i) = v, r(i) = v; break;
            case 1: s.getVelocity(i) = v, r(2 + i) = v; break;
            case 2: s.getPositions() = V2(v, i), r(0) = v, r(1) = i; break;
            case 3: s.getVelocities() = V2(v, i), r(2) = v, r(3) = i; break;
            case 4: s.toImplementation()(3 - i) = v, r(3 - i) = v; break;
            case 5: s = i ? s + JS(o) : s - JS(o), r = i ? V4(r + o) : V4(r - o); break;
            case 6: s = i ? s * v : s / v, r = i ? V4(r * v) : V4(r / v); break;
            case 7: s.setZero(), r.setZero(); break;
            default: s.getPositions()(i) += 2, r(i) += 2; break;
        }
        c.step();
        const JS& k = s;
        c.eqM(k.toImplementation(), r, "stored vector", 0);
        c.eqM(s.toImplementation(), r, "stored vector", 0);
        c.eqM(V2(k.getPositions()), V2(r(0), r(1)), "positions", 0);
        c.eqM(V2(s.getPositions()), V2(r(0), r(1)), "positions", 0);
        c.eqM(V2(k.getVelocities()), V2(r(2), r(3)), "velocities", 0);
        c.eqM(V2(s.getVelocities()), V2(r(2), r(3)), "velocities", 0);
        for (int j = 0; j < 2; j++)
        {
            c.eq(k.getPosition(j), r(j), "position", 0);
            c.eq(s.getPosition(j), r(j), "position", 0);
            c.eq(k.getVelocity(j), r(2 + j), "velocity", 0);
            c.eq(s.getVelocity(j), r(2 + j), "velocity", 0);
        }
    }
    c.state(c.hist);
}
MC_SUITE(joint_compare, "2 joints, all pairs of states with entries in {0,1} (first) and {0,1,2} (second): equality, strict ordering in every entry, approximate equality")
{
    V4 a, b;
    for (int i = 0; i < 4; i++)
        a(i) = c.choose(2) + 1, b(i) = c.choose(3) + 1;
    JS x(a), y(b);
    bool lt = true, gt = true;
    for (int i = 0; i < 4; i++)
        lt = lt && a(i) < b(i), gt = gt && a(i) > b(i);
    c.eqI(x == y, a == b, "==");
    c.eqI(x != y, a != b, "!=");
    c.eqI(x < y, lt, "<");
    c.eqI(x > y, gt, ">");
    c.eqI(x.isApprox(y), a == b, "approximately equal");
    V4 e = a;
    e(c.choose(4)) += 1e-13;
    c.check(x.isApprox(JS(e)), "approximately equal to a perturbation");
    c.check(x.isApprox(y, 10.0), "approximately equal with a wide tolerance");
    c.step(6);
    c.state(c.hist);
}
MC_SUITE(joint_wrap, "joint angles around 0, +-1, +-2, +-5 turns and every interval end, 5 lower limits, 3 tolerances, both joints")
{
    V2 lo;
    lo << c.pick<double>({0, -M_PI, -0.5, 3, -9}), c.pick<double>({-M_PI, 0});
    double tol = c.pick<double>({0, 0.125, 0.5});
    int j = c.choose(2);
    double q = lo(j) + c.pick<int>({-5, -2, -1, 0, 1, 2, 5}) * TP + c.pick<double>({-0.6, -0.4, -0.1, -1e-6, 1e-6, 0.1, 0.4, 0.6, 3, 6});
    double o = c.pick<double>({0.5, 40});
    V4 v;
    v << o, o, 7, 8;
    v(j) = q;
    JS s(v);
    bool viaVec = c.flip();
    if (viaVec)
        s.toUniquePosition(std::vector<double>{lo(0), lo(1)}, tol);
    else if (tol == 0)
        s.toUniquePosition(lo);
    else
        s.toUniquePosition(lo, tol);
    c.eqM(V2(s.getVelocities()), V2(7, 8), "velocities unchanged", 0);
    for (int i = 0; i < 2; i++)
    {
        double p = s.getPosition(i), k = (p - v(i)) / TP;
        c.check(std::fabs(k - std::round(k)) < 1e-9, "wrapped angle is equivalent");
        c.check(p > lo(i) - tol - 1e-9 && p < lo(i) + TP + tol + 1e-9, "wrapped angle lies in the principal interval");
        bool in = v(i) >= lo(i) - tol && v(i) < lo(i) + TP + tol;
        if (in && std::fabs(v(i) - (lo(i) - tol)) > 1e-9 && std::fabs(v(i) - (lo(i) + TP + tol)) > 1e-9)
            c.eq(p, v(i), "angle inside the interval is kept", 0);
    }
    c.step();
    c.state(c.hist);
}
MC_SUITE(joint_limits, "2 joints, positions and velocities from tables around both limits, 3 tolerances, 3 limit pairs: accepted exactly inside the limits")
{
    V2 lo, hi, vl;
    switch (c.choose(3))
    {
        case 0: lo << -1, 0, hi << 2, 0.5; break;
        case 1: lo << 1, -4, hi << 1, -2; break;
        default: lo << -0.5, -8, hi << 0.5, 8; break;
    }
    vl << c.pick<double>({0, 1.5}), 2;
    double tol = c.pick<double>({0, 0.25, 1});
    V4 x;
    for (int i = 0; i < 2; i++)
        x(i) = (c.flip() ? lo(i) : hi(i)) + c.pick<double>({-1.125, -1, -0.25, -0.125, 0, 0.125, 0.25, 1, 1.125});
    for (int i = 0; i < 2; i++)
        x(2 + i) = c.pick<double>({0, 1.5, -1.5, 1.625, -1.625, 2, -2.125});
    JS s(x);
    bool pos = true, vel = true;
    for (int i = 0; i < 2; i++)
    {
        pos = pos && x(i) >= lo(i) - tol && x(i) <= hi(i) + tol;
        vel = vel && std::fabs(x(2 + i)) <= vl(i);
    }
    c.eqI(tol == 0 ? s.checkPositionLimits(lo, hi) : s.checkPositionLimits(lo, hi, tol), pos, "position limits");
    c.eqI(s.checkPositionLimits(std::vector<double>{lo(0), lo(1)}, std::vector<double>{hi(0), hi(1)}, tol), pos, "position limits");
    c.eqI(s.checkVelocityLimits(vl), vel, "velocity limits");
    c.eqM(s.toImplementation(), x, "state unchanged", 0);
    c.step(3);
    c.state(c.hist);
}
MC_SUITE(joint_acceleration, "2 joints, all sequences of 4 accesses")
{
    typedef ct::rbd::JointAcceleration<2> JA;
    V2 r(0, 0);
    JA a;
    if (c.flip())
    {
        r << 3, -1;
        a = JA(r);
    }
    for (int d = 0; d < 4; d++)
    {
        int i = c.choose(2);
        switch (c.choose(5))
        {
            case 0: a(i) = 2 + d, r(i) = 2 + d; break;
            case 1: a.getAcceleration()(i) = -d, r(i) = -d; break;
            case 2: r << d, i, a.setAcceleration(r); break;
            case 3: a.setZero(), r.setZero(); break;
            default: a = JA::Zero(), r.setZero(); break;
        }
        const JA& k = a;
        c.eqM(k.getAcceleration(), r, "acceleration", 0);
        c.eq(a(0), r(0), "acceleration", 0);
        c.eq(a(1), r(1), "acceleration", 0);
        c.eqI(a.getSize(), (size_t)2, "size");
        c.step();
    }
    c.state(c.hist);
}

// ---- quantisation
MC_SUITE(quantisation, "2 methods x 3 intervals x 2 biases; all sequences of 3 (quick) / 4 (thorough) calls with 5 values at indices 0,1,3,7 or as vectors, and resets: every output is the quantised value plus the carried rest of its index")
{
    bool fl = c.flip();
    double q = c.pick<double>({1, 0.25, 1e-10}), bias = c.pick<double>({0, 0.375});
    int how = c.choose(2);
    QuantizationNoise n = how && fl ? (q == 1 ? QuantizationNoise(bias) : QuantizationNoise(bias, q)) : QuantizationNoise(bias, q, fl ? QuantizationNoise::FLOOR : QuantizationNoise::ROUND);
    if (how && !fl)
        c.prune();
    std::map<int, double> rest;
    auto ref = [&](double v, int i) {
        double cur = v + rest[i], k = cur / q;
        k = fl ? std::floor(k) : std::round(k);
        rest[i] = cur - k * q;
        return k * q + bias;
    };
    for (int d = 0; d < (c.thorough ? 4 : 3); d++)
    {
        int op = c.choose(d == 0 ? 3 : 4);
        c.step();
        if (op < 2)
        {
            int i = c.pick<int>({0, 1, 3, 7});
            double v = op ? c.pick<double>({-0.6, 3}) : c.pick<double>({0, 0.3, 1.7});
            double got = v;
            if (i == 0 && d % 2)
                n.noisify(got);
            else
                n.noisify(got, i);
            c.eq(got, ref(v, i), "quantised value", 1e-12);
        }
        else if (op == 2)
        {
            Eigen::Matrix<double, 3, 1> v, w;
            v << 0.8, -1.3, 2.6;
            w = v;
            n.noisify<3>(w);
            for (int i = 0; i < 3; i++)
                c.eq(w(i), ref(v(i), i), "quantised vector entry", 1e-12);
        }
        else
        {
            n.reset();
            rest.clear();
        }
    }
    c.state(c.hist);
}

// ---- geometry
MC_SUITE(planes, "all planes with coefficients in {-2,0,1,3} built in 3 ways, then any coefficient changed in 3 ways; solving for each coordinate at 4 points satisfies the plane equation")
{
    V4 k;
    for (int i = 0; i < 4; i++)
        k(i) = c.pick<double>({-2, 0, 1, 3});
    Plane p;
    c.eqM(p.getCoefficients(), V4(V4::Zero()), "default plane", 0);
    switch (c.choose(3))
    {
        case 0: p = Plane(k); break;
        case 1: p = Plane(k(0), k(1), k(2), k(3)); break;
        default: p.set(k(0), k(1), k(2), k(3)); break;
    }
    int ch = c.choose(4), i = c.choose(4);
    if (ch == 1)
        p.getCoefficient(i) = k(i) = 5;
    else if (ch == 2)
        p.getCoefficients()(i) = k(i) = -4;
    else if (ch == 3)
        k(i) = 7, p.set(k(0), k(1), k(2), k(3));
    c.eqM(p.getCoefficients(), k, "coefficients", 0);
    c.eq(p.a(), k(0), "a", 0), c.eq(p.b(), k(1), "b", 0), c.eq(p.c(), k(2), "c", 0), c.eq(p.d(), k(3), "d", 0);
    for (int j = 0; j < 4; j++)
        c.eq(p.getCoefficient(j), k(j), "coefficient", 0);
    c.throws([&] { p.getCoefficient(4); }, "coefficient index 4");
    double u = c.pick<double>({0, 1.5}), v = c.pick<double>({-2, 0.5});
    if (k(0) != 0)
        c.eq(k(0) * p.solveX(u, v) + k(1) * u + k(2) * v, k(3), "solve for x", 1e-12);
    if (k(1) != 0)
        c.eq(k(0) * u + k(1) * p.solveY(u, v) + k(2) * v, k(3), "solve for y", 1e-12);
    if (k(2) != 0)
        c.eq(k(0) * u + k(1) * v + k(2) * p.solveZ(u, v), k(3), "solve for z", 1e-12);
    c.step(3);
    c.state(c.hist);
}
MC_SUITE(plane_estimation, "all sets of 3..5 points out of 6 on 5 planes off the origin, also with an outlier (least-squares optimality); fewer than 3 points are refused")
{
    Eigen::Vector3d n;
    switch (c.choose(5))
    {
        case 0: n << 0, 0, 2; break;
        case 1: n << 1, -1, 0.5; break;
        case 2: n << 0.25, 0, -1; break;
        case 3: n << -3, 0.5, 1; break;
        default: n << 0, -4, 0; break;
    }
    static const double P[6][2] = {{0, 0}, {1, 0}, {0, 1}, {-2, 3}, {4, 1}, {1, -5}};
    PlaneEstimator::point_measurements_t pts;
    bool outlier = c.flip();
    for (int i = 0; i < 6; i++)
        if (c.flip())
        {
            // n.x = 1: two coordinates given, solve for the one with the largest coefficient
            int m = 0;
            for (int j = 1; j < 3; j++)
                if (std::fabs(n(j)) > std::fabs(n(m)))
                    m = j;
            Eigen::Vector3d x;
            int a = (m + 1) % 3, b = (m + 2) % 3;
            x(a) = P[i][0], x(b) = P[i][1];
            x(m) = (1 - n(a) * x(a) - n(b) * x(b)) / n(m);
            if (outlier && pts.size() == 1)
                x(m) += 0.25;
            pts.push_back(x);
        }
    PlaneEstimator e;
    c.step();
    if (pts.size() < 3)
    {
        c.throws([&] { e.estimate(pts); }, "fewer than 3 points");
        c.state(c.hist);
        return;
    }
    Eigen::MatrixXd A(pts.size(), 3);
    for (size_t i = 0; i < pts.size(); i++)
        A.row(i) = pts[i].transpose();
    Eigen::JacobiSVD<Eigen::MatrixXd> svd(A);
    if (svd.singularValues()(2) < 1e-6)
        c.prune();
    Plane p = e.estimate(pts);
    Eigen::Vector3d g = p.getCoefficients().head<3>() / p.d();
    // stationarity of |A g - 1|^2, and exactness without outlier
    c.eqM(Eigen::VectorXd(A.transpose() * (A * g - Eigen::VectorXd::Ones(pts.size()))), Eigen::VectorXd::Zero(3), "least-squares stationarity", 1e-8);
    if (!outlier)
        for (auto& x : pts)
            c.eq(p.a() * x(0) + p.b() * x(1) + p.c() * x(2), p.d(), "point on the estimated plane", 1e-8);
    c.state(c.hist);
}
MC_SUITE(ellipsoids, "axis-aligned and rotated (6 quaternions) ellipsoids, 3 centres, 3 axis sets, changed in any part: sign at points inside, on and outside along 3 directions")
{
    Eigen::Vector3d x0(c.pick<double>({0, 1.5, -2}), 0.5, -1), ax;
    switch (c.choose(3))
    {
        case 0: ax << 1, 1, 1; break;
        case 1: ax << 2, 0.5, 1; break;
        default: ax << 0.25, 4, 3; break;
    }
    Eigen::Matrix3d A = Eigen::Vector3d(1 / ax(0), 1 / ax(1), 1 / ax(2)).asDiagonal(), S = Eigen::Matrix3d::Identity();
    Ellipsoid e(x0, A, S);
    int rot = c.choose(7);
    if (rot)
    {
        static const double Q[6][4] = {{1, 0, 0, 0}, {0.5, 0.5, 0.5, 0.5}, {0.8, 0.6, 0, 0}, {0.6, 0, -0.8, 0}, {0.8, 0, 0, 0.6}, {0.1, 0.7, -0.5, -0.5}};
        Eigen::Quaterniond q(Q[rot - 1][0], Q[rot - 1][1], Q[rot - 1][2], Q[rot - 1][3]);
        e.setFromQuaterion(q);
        double w = q.w(), x = q.x(), y = q.y(), z = q.z();
        S << 1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y), 2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x), 2 * (x * z - w * y), 2 * (y * z + w * x),
            1 - 2 * (x * x + y * y);
    }
    int ch = c.choose(4);
    if (ch == 1)
        e.x0() = x0 = Eigen::Vector3d(3, 2, 1);
    else if (ch == 2)
        e.A()(1, 1) = A(1, 1) = 5, ax(1) = 0.2;
    else if (ch == 3)
        e.S() = S = Eigen::Matrix3d::Identity();
    const Ellipsoid& k = e;
    c.eqM(k.x0(), x0, "centre", 0);
    c.eqM(k.A(), A, "axes", 0);
    c.eqM(k.S(), S, "orientation");
    int d = c.choose(4);
    Eigen::Vector3d dir = d < 3 ? Eigen::Vector3d(Eigen::Vector3d::Unit(d)) : Eigen::Vector3d(0.6, 0, -0.8);
    double r = c.pick<double>({0, 0.5, -0.999, 1, -1, 1.001, -3});
    Eigen::Vector3d x = x0 + S * (r * (ax.asDiagonal() * dir));  // at relative radius |r|
    double v = e.insideEllipsoid(x);
    c.eq(v, r * r - 1, "ellipsoid function", 1e-9);
    c.step();
    c.state(c.hist);
}

// ---- timers
MC_SUITE(timers, "virtual clock; all sequences of 5 (quick) / 6 (thorough) of start, stop, reset, advance on the system and externally driven timers: elapsed is last stop minus last start")
{
    mc::VirtualClock clk(1000000LL * c.pick<int>({5, 100000}));
    double ext = c.pick<double>({0, -3.5});
    Timer t;
    ExternallyDrivenTimer e;
    double ts = 0, tp = 0, es = 0, ep = 0;
    auto now = [] { return mc::VirtualClock::us() * 1e-6; };
    for (int d = 0; d < (c.thorough ? 6 : 5); d++)
    {
        switch (c.choose(5))
        {
            case 0: t.start(), ts = now(), e.start(ext), es = ext; break;
            case 1: t.stop(), tp = now(), e.stop(ext), ep = ext; break;
            case 2: t.reset(), ts = tp = 0, e.reset(), es = ep = 0; break;
            case 3: mc::VirtualClock::advance(0.25), ext += 0.25; break;
            default: mc::VirtualClock::advance(3.900001), ext += 4; break;
        }
        c.eq(t.getElapsedTime(), tp - ts, "elapsed time (system timer)", 1e-9);
        c.eq(e.getElapsedTime(), ep - es, "elapsed time (external timer)", 1e-12);
        c.step();
        c.state(mc::mix(mc::hd(tp - ts), mc::hd(ep - es)));
    }
}

// ---- linear solvers
template <int N>
static void solveAll(mc::Ctx& c, const std::vector<int>& vals, bool sym)
{
    Eigen::MatrixXd A(N, N);
    for (int i = 0; i < N; i++)
        for (int j = sym ? i : 0; j < N; j++)
        {
            A(i, j) = c.pick(vals);
            if (sym)
                A(j, i) = A(i, j);
        }
    // factorisation without pivoting: defined where all leading minors are non-zero
    for (int k = 1; k <= N; k++)
        if (std::fabs(A.topLeftCorner(k, k).determinant()) < 1e-9)
            c.prune();
    int m = c.choose(3) + 1;
    Eigen::MatrixXd B(N, m);
    for (int i = 0; i < N * m; i++)
        B(i % N, i / N) = (i * 7 + 3) % 5 - 2 + 0.5 * (i / N);
    Eigen::MatrixXd X = LUsolve<double>(A, B);
    c.eqI((int)X.rows(), N, "rows"), c.eqI((int)X.cols(), m, "columns");
    c.eqM(Eigen::MatrixXd(A * X), B, "LU solution", 1e-8);
    if (sym)
    {
        X = LDLTsolve<double>(A, B);
        c.eqI((int)X.rows(), N, "rows"), c.eqI((int)X.cols(), m, "columns");
        c.eqM(Eigen::MatrixXd(A * X), B, "LDLT solution", 1e-8);
    }
    c.step();
    c.state(c.hist);
}
MC_SUITE(solve_1, "all 1x1 systems with entries -2..3") { solveAll<1>(c, {-2, -1, 0, 1, 2, 3}, true); }
MC_SUITE(solve_2, "all 2x2 systems with entries -2..3, 1..3 right-hand sides") { solveAll<2>(c, {-2, -1, 0, 1, 2, 3}, false); }
MC_SUITE(solve_sym2, "all symmetric 2x2 systems with entries -3..3") { solveAll<2>(c, {-3, -2, -1, 0, 1, 2, 3}, true); }
MC_SUITE(solve_3, "all 3x3 systems with entries in {0,1,-2}") { solveAll<3>(c, {0, 1, -2}, false); }
MC_SUITE(solve_sym3, "all symmetric 3x3 systems with entries in {-1,0,1,3}") { solveAll<3>(c, {-1, 0, 1, 3}, true); }
MC_SUITE(solve_sym4, "all symmetric 4x4 systems with entries in {0,1,-2}") { solveAll<4>(c, {0, 1, -2}, true); }
