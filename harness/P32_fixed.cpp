// P32: kinematics, dynamics and system classes of a fixed-base robot (HyA) against a reference rigid-body tree
// MC_FLAGS: -I@V@/lib/kindr -I@R@/ct_rbd/include/ct -I@R@/ct_rbd/include/ct/rbd -DNDEBUG
// MC_LIBS: -lipopt -llapack -lblas
// MC_SHARDS: 8
#include <ct/rbd/rbd.h>
#include <ct/models/HyA/HyA.h>
#include "hyq_ref.h"
typedef ct::rbd::HyA::Dynamics D;
typedef ct::rbd::HyA::Kinematics K;
typedef ct::rbd::RigidBodyPose Pose;
static Tree& hya()
{
    static Tree t = makeTree(HYA_links, HYA_frames);
    return t;
}
static const V3 BE[3] = {V3(0.3, -0.7, 1.1), V3(0, 0, 0), V3(-1.9, 0.4, 2.8)}, BP[3] = {V3(0.1, -2, 3), V3(0, 0, 0), V3(-4, 0.5, -0.25)};
static Pose base(int b)
{
    return Pose(kindr::EulerAnglesXyz<double>(BE[b]), kindr::Position<double, 3>(BP[b]), b == 2 ? Pose::QUAT : Pose::EULER);
}
static V6 vec6(const V3& a, const V3& b)
{
    V6 v;
    v << a, b;
    return v;
}
// force F and torque T in world coordinates at the end-effector, as a force on its link in link coordinates
static V6 onLink(const Tree& t, const char* ee, const M3& R, const V3& F, const V3& T)
{
    int k = t.linkOf(ee);
    V3 p = t.frame(ee).topRightCorner<3, 1>(), FB = R.transpose() * F;
    return frcOf(M4(t.W[k].inverse())) * vec6(R.transpose() * T + p.cross(FB), FB);
}
MC_SUITE(kinematics, "HyA: end-effector pose, velocity and force maps at 3^6 configurations x 3 base poses, original and clone")
{
    Tree& t = hya();
    VX q = config(c, 6, 6, 3), qd = pattern(6, 2, 1.3);
    int b = c.choose(3);
    t.setQ(q);
    static K k0;
    static std::shared_ptr<K> k1(k0.clone());
    K& k = c.flip() ? k0 : *k1;
    M4 T = t.frame("fr_ee");
    M3 RE = T.topLeftCorner<3, 3>(), R = eulerR(BE[b]);
    V3 p = T.topRightCorner<3, 1>();
    ct::rbd::JointState<6>::Position jp = q;
    c.eqM(V3(k.getEEPositionInBase(0, jp).toImplementation()), p, "position in base", 1e-9);
    c.eqM(M3(k.getEERotInBase(0, jp)), RE, "rotation in base", 1e-9);
    Pose e = k.getEEPoseInBase(0, jp);
    c.eqM(V3(e.position().toImplementation()), p, "pose in base: position", 1e-9);
    c.eqM(M3(e.getRotationMatrix().toImplementation()), RE, "pose in base: rotation", 1e-9);
    c.eqM(V3(k.getEEPositionInWorld(0, base(b), jp).toImplementation()), V3(BP[b] + R * p), "position in world", 1e-9);
    c.eqM(M3(k.getEERotInWorld(0, base(b), jp)), M3(R * RE), "rotation in world", 1e-9);
    e = k.getEEPoseInWorld(0, base(b), jp);
    c.eqM(V3(e.position().toImplementation()), V3(BP[b] + R * p), "pose in world: position", 1e-9);
    c.eqM(M3(e.getRotationMatrix().toImplementation()), M3(R * RE), "pose in world: rotation", 1e-9);
    MX J(6, 6);
    for (int i = 0; i < 6; i++)
    {
        V3 z = t.W[i].block<3, 1>(0, 2), o = t.W[i].topRightCorner<3, 1>();
        J.col(i) << z, z.cross(p - o);
    }
    ct::rbd::RBDState<6> s;
    s.setZero();
    s.basePose() = base(b);
    s.joints().getPositions() = q;
    s.joints().getVelocities() = qd;
    V3 w(0.3, -0.2, 0.7), v(-1, 0.4, 0.2);
    s.baseVelocities().getRotationalVelocity().toImplementation() = w;
    s.baseVelocities().getTranslationalVelocity().toImplementation() = v;
    c.eqM(MX(k.getJacobianBaseEEbyId(0, s)), J, "Jacobian", 1e-9);
    V3 ve = V3((J * qd).tail<3>()) + v + w.cross(p);
    c.eqM(V3(k.getEEVelocityInBase(0, s).toImplementation()), ve, "velocity in base", 1e-9);
    c.eqM(V3(k.getEEVelocityInWorld(0, s).toImplementation()), V3(R * ve), "velocity in world", 1e-9);
    V3 F(3, -4, 5), M(0.5, 0.6, -0.7);
    typedef K::EEForce EF;
    EF f;
    f.force() = F;
    f.torque() = M;
    c.eqM(V6(k.mapForceFromWorldToLink3d(F, base(b), jp, 0)), onLink(t, "fr_ee", R, F, V3::Zero()), "force on link", 1e-9);
    c.eqM(V6(k.mapForceFromWorldToLink(f, base(b), jp, 0)), onLink(t, "fr_ee", R, F, M), "force and torque on link", 1e-9);
    c.eqM(V6(k.mapForceFromEEToLink(f, k.getEEPoseInBase(0, jp), jp, 0)), onLink(t, "fr_ee", M3::Identity(), RE * F, RE * M), "force in end-effector frame on link", 1e-9);
    c.step(16);
    c.state(c.hist);
}
static VX hyaFd(const VX& q, const VX& qd, const VX& tau, const Tree::Ext& ext)
{
    Tree& t = hya();
    t.setQ(q);
    MX H = t.massMatrix(false);
    return H.ldlt().solve(tau - t.rnea(qd, VX::Zero(6), V6::Zero(), GRAV_UP, V6::Zero(), ext).tau);
}
static VX hyaId(const VX& q, const VX& qd, const VX& qdd, const Tree::Ext& ext)
{
    Tree& t = hya();
    t.setQ(q);
    return t.rnea(qd, qdd, V6::Zero(), GRAV_UP, V6::Zero(), ext).tau;
}
static const int OFF[3] = {0, 1, 2};
static void joints(mc::Ctx& c, VX& q, VX& qd)
{
    static const double V[3] = {0.4, -1.1, 2.3};
    int k = c.choose(c.thorough ? 27 : 9);
    q = VX(6);
    for (int i = 0; i < 6; i++)
        q(i) = V[(k / (i % 3 == 0 ? 1 : i % 3 == 1 ? 3 : 9) + i / 3) % 3] + 0.02 * i;
    qd = pattern(6, c.choose(4), 1.3);
}
MC_SUITE(dynamics, "HyA: forward and inverse dynamics calls in every order of 3 on one object")
{
    D d;
    Tree& t = hya();
    std::string h;
    for (int i = 0; i < 3; i++)
    {
        int op = c.choose(3), k = c.choose(2);
        VX q = pattern(6, 2 + k + i, 1.1), qd = pattern(6, 3 - k, 1.7), a = pattern(6, 4 + k, 5);
        ct::rbd::JointState<6> s;
        s.getPositions() = q;
        s.getVelocities() = qd;
        Tree::Ext el = t.noExt();
        D::ExtLinkForces_t e(V6(V6::Zero()));
        for (int j = 0; j < 6; j++)
        {
            el[j] = k ? pattern6(1 + j, 2) : V6::Zero();
            e[(D::ROBCOGEN::LinkIdentifiers)(j + 1)] = el[j];
        }
        D::control_vector_t u(a);
        D::JointAcceleration_t acc(Eigen::Matrix<double, 6, 1>::Constant(7));
        if (op == 0)
        {
            d.FixBaseForwardDynamics(s, u, e, acc);
            c.eqM(VX(acc.getAcceleration()), hyaFd(q, qd, a, el), "forward dynamics", 1e-7);
        }
        else
        {
            acc.getAcceleration() = a;
            u.setConstant(9);
            if (op == 1)
                d.FixBaseID(s, acc, e, u);
            else
                d.FixBaseID(s, acc, u);
            c.eqM(VX(u), hyaId(q, qd, a, op == 1 ? el : t.noExt()), "inverse dynamics", 1e-9);
        }
        c.step();
        c.state(c.hist);
    }
}
template <class S>
static std::shared_ptr<S> copied(mc::Ctx& c, std::shared_ptr<S> s)
{
    int k = c.choose(3);
    if (k == 1)
        return std::shared_ptr<S>(s->clone());
    if (k == 2)
        return std::shared_ptr<S>(new S(*s));
    return s;
}
// 0: none, 1: series elastic, 2: second order
template <int ACT>
struct Act;
template <>
struct Act<0>
{
    typedef ct::rbd::ActuatorDynamics<0, 6> A;
    static std::shared_ptr<A> make() { return nullptr; }
    static VX rate(const VX&, const VX&, const VX&) { return VX(0); }
    static VX out(const VX&, const VX&, const VX& u) { return u; }
};
template <>
struct Act<6>
{
    typedef ct::rbd::ActuatorDynamics<6, 6> A;
    static std::shared_ptr<A> make() { return std::shared_ptr<A>(new ct::rbd::SEADynamicsFirstOrder<6>(160, 50)); }
    static VX rate(const VX&, const VX&, const VX& u) { return u / 50; }
    static VX out(const VX& q, const VX& a, const VX&) { return 160 * (a - q); }
};
template <>
struct Act<12>
{
    typedef ct::rbd::ActuatorDynamics<12, 6> A;
    static std::shared_ptr<A> make() { return std::shared_ptr<A>(new ct::rbd::SecondOrderActuatorDynamics<6>(20, 0.7, 300)); }
    static VX rate(const VX&, const VX& a, const VX& u)
    {
        VX r(12);
        r << a.tail(6), 400 * 300 * u - 2 * 0.7 * 20 * a.tail(6) - 400 * a.head(6);
        return r;
    }
    static VX out(const VX&, const VX& a, const VX&) { return a.head(6); }
};
template <int ACT, bool EE>
static void fdSystem(mc::Ctx& c)
{
    typedef ct::rbd::FixBaseFDSystem<D, ACT, EE> S;
    int b = c.choose(3);
    std::shared_ptr<S> s = copied(c, std::shared_ptr<S>(ACT ? new S(Act<ACT>::make(), base(b)) : new S(base(b))));
    VX q, qd;
    joints(c, q, qd);
    VX a = pattern(ACT, 3, 0.8), u = pattern(6 + 3 * EE, 2, 8);
    typename S::state_vector_t x, xd;
    x << q, qd, a;
    xd.setConstant(99);
    s->computeControlledDynamics(x, 0.3, typename S::control_vector_t(u), xd);
    Tree& t = hya();
    t.setQ(q);
    Tree::Ext el = t.noExt();
    if (EE)
        el[t.linkOf("fr_ee")] = onLink(t, "fr_ee", eulerR(BE[b]), u.tail(3), V3::Zero());
    VX want(12 + ACT);
    want << qd, hyaFd(q, qd, Act<ACT>::out(q, a, u.head(6)), el), Act<ACT>::rate(q, a, u.head(6));
    c.eqM(VX(xd), want, "forward dynamics system", 1e-7);
    ct::rbd::JointState<6> js;
    js.getPositions() = q;
    js.getVelocities() = qd;
    c.eqM(VX(s->computeIDTorques(js)), hyaId(q, qd, VX::Zero(6), t.noExt()), "static torques", 1e-9);
    VX acc = pattern(6, 4, 3);
    c.eqM(VX(s->computeIDTorques(js, typename S::JointAcceleration_t(acc))), hyaId(q, qd, acc, t.noExt()), "inverse dynamics torques", 1e-9);
    c.step(3);
    c.state(c.hist);
}
template <int ACT>
static void consistent(mc::Ctx& c)
{  // the actuator state found for a joint state produces the torques that hold it
    typedef ct::rbd::FixBaseFDSystem<D, ACT, false> S;
    std::shared_ptr<S> s = copied(c, std::shared_ptr<S>(new S(Act<ACT>::make())));
    VX q, qd;
    joints(c, q, qd);
    ct::rbd::JointState<6> js;
    js.getPositions() = q;
    js.getVelocities() = qd;
    VX tau = hyaId(q, qd, VX::Zero(6), hya().noExt());
    c.eqM(Act<ACT>::out(q, VX(s->computeConsistentActuatorState(js)), VX(6)), tau, "actuator state for the joint state", 1e-9);
    VX ref = pattern(6, 3, 11);
    c.eqM(Act<ACT>::out(q, VX(s->computeConsistentActuatorState(js, ct::core::ControlVector<6>(ref))), VX(6)), ref, "actuator state for given torques", 1e-9);
    c.step(2);
    c.state(c.hist);
}
MC_SUITE(forward_dynamics_systems, "HyA system classes: without and with 2 kinds of actuators x end-effector inputs x 3 base poses x original, copy, clone x joint states")
{
    switch (c.choose(6))
    {
        case 0: return fdSystem<0, false>(c);
        case 1: return fdSystem<0, true>(c);
        case 2: return fdSystem<6, false>(c);
        case 3: return fdSystem<6, true>(c);
        case 4: return fdSystem<12, false>(c);
        default: return fdSystem<12, true>(c);
    }
}
MC_SUITE(consistent_actuators, "HyA: actuator states consistent with joint states and torques")
{
    if (c.flip())
        consistent<6>(c);
    else
        consistent<12>(c);
}
template <bool EE>
static void symplectic(mc::Ctx& c)
{
    typedef ct::rbd::FixBaseFDSystemSymplectic<D, 0, EE> S;
    std::shared_ptr<S> s = copied(c, std::shared_ptr<S>(new S));
    VX q, qd;
    joints(c, q, qd);
    VX q2 = pattern(6, 2 + c.choose(2), 1.2), qd2 = pattern(6, 4, 0.9), u = pattern(6 + 3 * EE, 2, 8);
    typename S::state_vector_full_t x, xd;
    x << q, qd;
    typename S::control_vector_full_t uu(u);
    typename S::p_vector_full_t pd;
    typename S::v_vector_full_t vd;
    auto acc = [&](const VX& p, const VX& v) {
        Tree& t = hya();
        t.setQ(p);
        Tree::Ext el = t.noExt();
        if (EE)
            el[t.linkOf("fr_ee")] = onLink(t, "fr_ee", M3::Identity(), u.tail(3), V3::Zero());
        return hyaFd(p, v, u.head(6), el);
    };
    s->computePdot(x, typename S::v_vector_full_t(qd2), uu, pd);
    c.eqM(VX(pd), qd2, "rate of the positions at given velocities", 1e-12);
    s->computeVdot(x, typename S::p_vector_full_t(q2), uu, vd);
    c.eqM(VX(vd), acc(q2, qd), "rate of the velocities at given positions", 1e-7);
    VX want(12);
    want << qd, acc(q, qd);
    s->computeControlledDynamics(x, 0.1, uu, xd);
    c.eqM(VX(xd), want, "dynamics", 1e-7);
    c.eqM(VX(S::rbdStateFromVector(x)), VX(x), "state of the bodies", 0);
    c.eqM(VX(S::toFullState(S::rbdStateFromVector(x))), VX(x), "full state", 0);
    c.step(4);
    c.state(c.hist);
}
MC_SUITE(symplectic_systems, "HyA symplectic system: partial derivatives at positions and velocities other than those of the state, original, copy, clone")
{
    if (c.flip())
        symplectic<true>(c);
    else
        symplectic<false>(c);
}
MC_SUITE(kinematic_systems, "HyA with accelerations or velocities as inputs, original, copy, clone")
{
    VX q, qd;
    joints(c, q, qd);
    VX u = pattern(6, 3, 2);
    if (c.flip())
    {
        typedef ct::rbd::FixBaseAccSystem<D> S;
        auto s = copied(c, std::make_shared<S>());
        S::state_vector_t x, xd;
        x << q, qd;
        s->computeControlledDynamics(x, 0, S::control_vector_t(u), xd);
        VX w(12);
        w << qd, u;
        c.eqM(VX(xd), w, "accelerations as inputs", 0);
    }
    else
    {
        typedef ct::rbd::FixBaseVelSystem<D> S;
        auto s = copied(c, std::make_shared<S>());
        S::state_vector_t x(q), xd;
        s->computeControlledDynamics(x, 0, S::control_vector_t(u), xd);
        c.eqM(VX(xd), u, "velocities as inputs", 0);
    }
    c.step();
    c.state(c.hist);
}
