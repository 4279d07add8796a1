// P32: kinematics, dynamics, contact model and system classes of a floating-base robot (HyQ) against a reference rigid-body tree
// MC_FLAGS: -I@V@/lib/kindr -I@R@/ct_rbd/include/ct -I@R@/ct_rbd/include/ct/rbd -DNDEBUG
// MC_LIBS: -lipopt -llapack -lblas
// MC_SHARDS: 8
#include <ct/rbd/rbd.h>
#include <ct/models/HyQ/HyQ.h>
#include "hyq_ref.h"
typedef ct::rbd::HyQ::Dynamics D;
typedef ct::rbd::HyQ::Kinematics K;
typedef ct::rbd::RigidBodyPose Pose;
typedef ct::rbd::RBDState<12> S12;
typedef ct::rbd::EEContactModel<K> CM;
static S12 state(const VX& x, bool quat)
{
    S12 s(quat ? Pose::QUAT : Pose::EULER);
    s.fromStateVectorEulerXyz(x);
    return s;
}
static V6 vec6(const V3& a, const V3& b)
{
    V6 v;
    v << a, b;
    return v;
}
static V6 onLink(const Foot& f, const M3& R, const V3& F)
{
    V3 FB = R.transpose() * F;
    return frcOf(M4(hyq().W[f.link].inverse())) * vec6(f.pB.cross(FB), FB);
}
// accelerations for joint torques u and forces on the links
static VX accel(const VX& x, const VX& u, const Tree::Ext& ext, const V6& ext0 = V6::Zero())
{
    Tree& t = hyq();
    t.setQ(x.segment(6, 12));
    Tree::Out o = t.rnea(x.tail(12), VX::Zero(12), x.segment<6>(18), V6(-gravityB(x)), ext0, ext);
    VX rhs(18);
    rhs << -o.wrench, u - o.tau;
    return t.massMatrix(true).ldlt().solve(rhs);
}
template <class S>
static std::shared_ptr<S> copied(mc::Ctx& c, std::shared_ptr<S> s)
{
    int k = c.choose(3);
    if (k == 1)
        return std::shared_ptr<S>(s->clone());
    if (k == 2)
        return std::shared_ptr<S>(new S(*s));
    return s;
}
MC_SUITE(kinematics, "HyQ: positions, velocities and force maps of all feet at 27 leg configurations x 12 base poses x 2 velocities x both storages")
{
    VX x = hyqState(c, 3, 2);
    S12 s = state(x, c.flip());
    static K k;
    Tree& t = hyq();
    t.setQ(x.segment(6, 12));
    M3 R = eulerR(x.head<3>());
    for (int i = 0; i < 4; i++)
    {
        Foot f = foot(i, x);
        M3 RB = t.frame(FEET[i]).topLeftCorner<3, 3>();
        c.eqM(V3(k.getEEPositionInBase(i, s.jointPositions()).toImplementation()), f.pB, "foot in base", 1e-9);
        c.eqM(V3(k.getEEPositionInWorld(i, s.basePose(), s.jointPositions()).toImplementation()), f.pW, "foot in world", 1e-9);
        c.eqM(V3(k.getEEVelocityInBase(i, s).toImplementation()), V3(R.transpose() * f.vW), "velocity of foot in base", 1e-9);
        c.eqM(V3(k.getEEVelocityInWorld(i, s).toImplementation()), f.vW, "velocity of foot in world", 1e-9);
        c.eqM(M3(k.getEERotInWorld(i, s.basePose(), s.jointPositions())), M3(R * RB), "rotation of foot", 1e-9);
        c.eqM(M3(k.getEEPoseInWorld(i, s.basePose(), s.jointPositions()).getRotationMatrix().toImplementation()), M3(R * RB), "pose of foot", 1e-9);
        V3 F(30, -40, 50 + i);
        c.eqM(V6(k.mapForceFromWorldToLink3d(F, s.basePose(), s.jointPositions(), i)), onLink(f, R, F), "force on the link of the foot", 1e-9);
        c.step(7);
    }
    c.state(c.hist);
}
MC_SUITE(dynamics, "HyQ: all sequences of 3 calls out of forward, inverse and fully actuated inverse dynamics x 2 states x with or without link forces on one object")
{
    D d;
    Tree& t = hyq();
    for (int i = 0; i < 3; i++)
    {
        int op = c.choose(3), k = c.choose(2), f = c.choose(2);
        VX x(36);
        x << 0.3 - k, 0.2 + 0.5 * i, -0.4, 1, 2, 3, pattern(12, 2 + k + i, 0.9), pattern6(1 + k, 0.8), pattern(12, 4 - k, 1.2);
        S12 s = state(x, k);
        t.setQ(x.segment(6, 12));
        Tree::Ext el = t.noExt();
        D::ExtLinkForces_t e(V6(V6::Zero()));
        V6 e0 = V6::Zero();
        if (f)
        {
            e0 = pattern6(5, 2);
            e[(D::ROBCOGEN::LinkIdentifiers)0] = e0;
            for (int j = 0; j < 12; j++)
                e[(D::ROBCOGEN::LinkIdentifiers)(j + 1)] = el[j] = pattern6(1 + j, 2);
        }
        VX u = pattern(12, 3 + k, 30), qdd = pattern(12, 2 + k, 4);
        D::control_vector_t uu(u);
        if (op == 0)
        {
            D::RBDAcceleration_t a;
            d.FloatingBaseForwardDynamics(s, uu, e, a);
            VX w = accel(x, u, el, e0);
            c.eqM(V6(a.base().getVector6d()), V6(w.head<6>()), "base acceleration", 1e-7);
            c.eqM(VX(a.joints().getAcceleration()), VX(w.tail(12)), "joint accelerations", 1e-7);
        }
        else if (op == 1)
        {
            ct::rbd::RigidBodyAcceleration b;
            D::JointAcceleration_t a(qdd);
            d.FloatingBaseID(s, a, e, uu, b);
            // base acceleration for which no wrench acts on the base
            Tree::Out o = t.rnea(x.tail(12), qdd, x.segment<6>(18), V6(-gravityB(x)), e0, el);
            V6 ab = -V6(M6(t.massMatrix(true).topLeftCorner<6, 6>()).ldlt().solve(o.wrench));
            c.eqM(V6(b.getVector6d()), ab, "base acceleration of the inverse dynamics", 1e-7);
            c.eqM(VX(uu), t.rnea(x.tail(12), qdd, x.segment<6>(18), V6(ab - gravityB(x)), e0, el).tau, "joint torques of the inverse dynamics", 1e-7);
        }
        else
        {
            V6 ab = pattern6(2 + k, 3);
            ct::rbd::RigidBodyAcceleration b(ab);
            D::JointAcceleration_t a(qdd);
            D::ForceVector_t w;
            d.FloatingBaseFullyActuatedID(s, b, a, e, w, uu);
            Tree::Out o = t.rnea(x.tail(12), qdd, x.segment<6>(18), V6(ab - gravityB(x)), e0, el);
            c.eqM(V6(w), o.wrench, "wrench on the base", 1e-7);
            c.eqM(VX(uu), o.tau, "joint torques with given base acceleration", 1e-7);
        }
        c.step();
        c.state(c.hist);
    }
}
// ---- contact model
struct Contact
{
    double k = 5000, d = 500, al = 100, an = -1;
    int smooth = 0;
    std::array<bool, 4> on{{true, true, true, true}};
    V3 force(const Foot& f, int i) const
    {
        double z = f.pW(2);
        if (!on[i] || (smooth == 0 && z > 0))
            return V3::Zero();
        double s = 1;
        if (smooth == 1 || smooth == 2)
            s = 1 / (1 + std::exp(z * al));
        if (smooth == 3)
            s = 0.5 - 0.5 * z * al / (1 + std::fabs(z * al));
        V3 F = -d * s * f.vW;
        if (an > 0)
            F(2) += k * std::exp(-an * z);
        else if (z <= 0)
            F(2) -= k * z;
        return F;
    }
};
static CM* contactModel(mc::Ctx& c, Contact& r)
{
    static const CM::VELOCITY_SMOOTHING SM[4] = {CM::NONE, CM::SIGMOID, CM::TANH, CM::ABS};
    r.smooth = c.choose(4);
    r.an = c.flip() ? 20 : -1;
    CM* m;
    if (c.flip())
    {
        r.k = 700;
        r.d = 80;
        r.al = 12;
        m = new CM(r.k, r.d, r.al, r.an, 0.0, SM[r.smooth]);
    }
    else
    {
        m = new CM();
        m->alpha_n() = r.an;
        m->smoothing() = SM[r.smooth];
    }
    int a = c.choose(3);
    if (a)
        r.on = a == 1 ? std::array<bool, 4>{{true, false, true, true}} : std::array<bool, 4>{{false, true, false, true}};
    m->setActiveEE(r.on);
    return m;
}
static VX nearGround(mc::Ctx& c)
{
    VX x(36);
    int h = c.choose(4);
    x << 0.1, -0.05, 0.3, 0.2, -0.1, (h == 0 ? 0.60 : h == 1 ? 0.56 : h == 2 ? 0.9 : 0.3), pattern(12, 0, 0), pattern6(2, 0.5), pattern(12, 2, 0.7);
    for (int i = 0; i < 4; i++)
        x.segment<3>(6 + 3 * i) << 0.1 * i - 0.1, (i < 2 ? 0.7 : -0.7), (i < 2 ? -1.4 : 1.4);
    return x;
}
MC_SUITE(contact_forces, "HyQ: contact forces for all smoothings x normal springs x parameters x active feet x heights, original, copy, clone, both storages")
{
    Contact r;
    std::shared_ptr<CM> m = copied(c, std::shared_ptr<CM>(contactModel(c, r)));
    VX x = nearGround(c);
    CM::EEForcesLinear F = m->computeContactForces(state(x, c.flip()));
    hyq().setQ(x.segment(6, 12));
    for (int i = 0; i < 4; i++)
    {
        c.eqM(V3(F[i]), r.force(foot(i, x), i), "contact force", 1e-9);
        c.step();
    }
    c.state(c.hist);
}
// ---- systems
template <bool QUAT, bool EE>
static void fdSystem(mc::Ctx& c)
{
    typedef ct::rbd::FloatingBaseFDSystem<D, QUAT, EE> S;
    std::shared_ptr<S> s(new S);
    Contact r;
    bool contact = c.flip();
    if (contact)
    {
        std::shared_ptr<CM> m(new CM(700, 80, 12, 20, 0.0, CM::SIGMOID));
        r.k = 700;
        r.d = 80;
        r.al = 12;
        r.an = 20;
        r.smooth = 1;
        s->setContactModel(m);
    }
    s = copied(c, s);
    VX x = nearGround(c), u = pattern(12 + 12 * EE, 2, 30);
    auto vec = [&](const VX& y) {
        S12 st = state(y, QUAT);
        return QUAT ? VX(st.toStateVectorQuaternion()) : VX(st.toStateVectorEulerXyz());
    };
    auto acc = [&](const VX& y) {
        hyq().setQ(y.segment(6, 12));
        Tree::Ext el = hyq().noExt();
        for (int i = 0; i < 4; i++)
        {
            Foot f = foot(i, y);
            V3 F = V3::Zero();
            if (contact)
                F = r.force(f, i);
            if (EE)
                F += u.segment<3>(12 + 3 * i);
            el[f.link] += onLink(f, eulerR(y.head<3>()), F);
        }
        return accel(y, u.head(12), el);
    };
    auto rate = [&](const VX& y) {
        VX d(18 + QUAT);
        V3 w = y.segment<3>(18), v = eulerR(y.head<3>()) * y.segment<3>(21);
        if (QUAT)
        {
            VX q = vec(y);
            double a = q(0), b = q(1), e = q(2), f = q(3);
            d << 0.5 * (-b * w(0) - e * w(1) - f * w(2)), 0.5 * (a * w(0) + e * w(2) - f * w(1)), 0.5 * (a * w(1) - b * w(2) + f * w(0)),
                0.5 * (a * w(2) + b * w(1) - e * w(0)), v, y.tail(12);
        }
        else
            d << eulerE(y.head<3>()).inverse() * w, v, y.tail(12);
        return d;
    };
    typename S::StateVector xs(vec(x)), xd;
    typename S::ControlVector us(u);
    xd.setConstant(99);
    s->computeControlledDynamics(xs, 0.2, us, xd);
    VX want(36 + QUAT);
    want << rate(x), acc(x);
    c.eqM(VX(xd), want, "dynamics of the floating-base system", 1e-6);
    // partial derivatives at a position or velocity other than that of the state
    VX y = x, z = x;
    y.tail(18) = pattern(18, 3, 0.6);
    z.head(18) = nearGround(c).head(18);
    z(0) += 0.3;
    z(7) += 0.2;
    ct::core::StateVector<18 + QUAT> pd, p(VX(vec(z).head(18 + QUAT)));
    ct::core::StateVector<18> vd, v(VX(y.tail(18)));
    s->computePdot(xs, v, us, pd);
    c.eqM(VX(pd), rate(y), "rate of the coordinates at given velocities", 1e-9);
    s->computeVdot(xs, p, us, vd);
    c.eqM(VX(vd), acc(z), "accelerations at given coordinates", 1e-6);
    c.step(3);
    c.state(c.hist);
}
MC_SUITE(forward_dynamics_systems, "HyQ system classes: both representations x end-effector inputs x contact model x original, copy, clone x pairs of heights")
{
    switch (c.choose(4))
    {
        case 0: return fdSystem<false, false>(c);
        case 1: return fdSystem<false, true>(c);
        case 2: return fdSystem<true, false>(c);
        default: return fdSystem<true, true>(c);
    }
}
// ---- dynamics under contact constraints
struct Constrained
{
    MX J;
    VX g;  // J a = g keeps the feet at rest in acceleration
    MX M;
    VX h;
};
static Constrained constraints(const VX& x, int feet)
{
    Tree& t = hyq();
    auto jac = [&](const VX& q, int i) {
        t.setQ(q);
        int l = t.linkOf(FEET[i]);
        V3 p = t.frame(FEET[i]).topRightCorner<3, 1>();
        MX J = MX::Zero(3, 18);
        J.leftCols(3) = -skew(p);
        J.block<3, 3>(0, 3).setIdentity();
        for (int k = 0; k < 12; k++)
            if (t.above(k, l))
                J.col(6 + k) = V3(t.W[k].block<3, 1>(0, 2)).cross(p - V3(t.W[k].topRightCorner<3, 1>()));
        return J;
    };
    VX q = x.segment(6, 12), qd = x.tail(12), v = x.tail(18);
    Constrained r;
    int n = __builtin_popcount(feet), row = 0;
    r.J = MX(3 * n, 18);
    r.g = VX(3 * n);
    for (int i = 0; i < 4; i++)
        if (feet >> i & 1)
        {
            MX J = jac(q, i);
            auto at = [&](const VX& s) { return VX(jac(q + s(0) * qd, i) * v); };
            VX Jd = differences(at, VX::Zero(1), 1e-3);
            V3 vf = J * v;
            r.J.middleRows(row, 3) = J;
            r.g.segment<3>(row) = -V3(Jd) - V3(x.segment<3>(18)).cross(vf);
            row += 3;
        }
    t.setQ(q);
    r.M = t.massMatrix(true);
    Tree::Out o = t.rnea(qd, VX::Zero(12), x.segment<6>(18), V6(-gravityB(x)), V6::Zero(), t.noExt());
    r.h = VX(18);
    r.h << o.wrench, o.tau;
    return r;
}
MC_SUITE(contact_constrained, "HyQ under contact constraints: all sequences of 2 (thorough 3) contact configurations out of 16 x forward or inverse dynamics x 2 states")
{
    D d;
    for (int i = 0; i < (c.thorough ? 3 : 2); i++)
    {
        int feet = c.choose(16), op = c.choose(2), k = i ? 0 : c.choose(2);
        VX x(36);
        x << 0.3 - k, 0.2 + 0.3 * i, -0.4, 1, 2, 3, pattern(12, 2 + k + i, 0.9), pattern6(1 + k, 0.8), pattern(12, 4 - k, 1.2);
        S12 s = state(x, k);
        Constrained r = constraints(x, feet);
        D::EE_in_contact_t ee(false);
        for (int j = 0; j < 4; j++)
            ee[j] = feet >> j & 1;
        int n = r.J.rows();
        VX u = pattern(12, 3 + k, 30);
        if (op == 0)
        {
            D::RBDAcceleration_t a;
            d.ProjectedForwardDynamics(ee, s, D::control_vector_t(u), a);
            MX A = MX::Zero(18 + n, 18 + n);
            A << r.M, -r.J.transpose(), r.J, MX::Zero(n, n);
            VX b(18 + n), f = VX::Zero(18);
            f.tail(12) = u;
            b << f - r.h, r.g;
            VX w = A.fullPivLu().solve(b);
            VX got(18);
            got << a.base().getVector6d(), a.joints().getAcceleration();
            c.eqM(got, VX(w.head(18)), "constrained accelerations", 1e-6);
        }
        else if (n)
        {
            // accelerations compatible with the constraints; the torques returned must produce them
            VX a0 = pattern(18, 2 + k, 2);
            MX N = r.J.transpose() * (r.J * r.J.transpose()).inverse();
            VX a = a0 + N * (r.g - r.J * a0);
            if (n >= 6)
            {
                D::RBDAcceleration_t acc;
                acc.base().fromVector6d(V6(a.head<6>()));
                acc.joints().setAcceleration(Eigen::Matrix<double, 12, 1>(a.tail(12)));
                D::control_vector_t uu;
                d.ProjectedInverseDynamics(ee, s, acc, uu);
                // some contact force closes the equations of motion: residual in the range of J^T
                VX f = VX::Zero(18);
                f.tail(12) = uu;
                VX res = r.M * a + r.h - f;
                VX lam = r.J.transpose().jacobiSvd(Eigen::ComputeThinU | Eigen::ComputeThinV).solve(res);
                if (n >= 9)
                    c.eqM(VX(r.J.transpose() * lam), res, "torques of the constrained inverse dynamics", 1e-6);
            }
        }
        c.step();
        c.state(c.hist);
    }
}
