// P30: poses and robot states in every representation against rotation matrices (with the kindr stand-in of lib/kindr)
// MC_FLAGS: -I@V@/lib/kindr -I@R@/ct_rbd/include/ct -I@R@/ct_rbd/include/ct/rbd
// MC_SHARDS: 4
#include <ct/core/core.h>
#include <ct/rbd/state/RigidBodyPose.h>
#include <ct/rbd/state/RigidBodyVelocities.h>
#include <ct/rbd/state/RigidBodyState.h>
#include <ct/rbd/state/JointState.h>
#include <ct/rbd/state/RBDState.h>
#include <ct/rbd/state/RBDAcceleration.h>
#include <ct/rbd/state/FixBaseRobotState.h>
#include <ct/rbd/state/FloatingBaseRobotState.h>
#include <ct/rbd/common/SpatialForceVector.h>
#include <ct/rbd/robot/control/SelectionMatrix.h>
#include <ct/rbd/robot/control/SelectionMatrix-impl.h>
#include "mc.h"
using namespace ct::rbd;
typedef Eigen::Matrix3d M3;
typedef Eigen::Matrix4d M4;
typedef Eigen::Vector3d V3;
typedef Eigen::Quaterniond Q;
typedef Eigen::Matrix<double, 6, 1> V6;
typedef RigidBodyPose P;
static M3 rot(int k, double a)
{
    M3 m = M3::Identity();
    int i = (k + 1) % 3, j = (k + 2) % 3;
    m(i, i) = m(j, j) = std::cos(a);
    m(i, j) = -std::sin(a);
    m(j, i) = std::sin(a);
    return m;
}
static M3 xyz(const V3& e) { return rot(0, e(0)) * rot(1, e(1)) * rot(2, e(2)); }
static M3 skew(const V3& a)
{
    M3 m;
    m << 0, -a(2), a(1), a(2), 0, -a(0), -a(1), a(0), 0;
    return m;
}
static const V3 EUL[7] = {V3(0.3, -0.7, 1.1), V3(0, 0, 0), V3(-1.9, 0.4, 2.8), V3(2.6, 1.2, -0.5), V3(0, 1.0, 0), V3(1.3, 0, 0), V3(0, 0, -2.2)};
static const V3 POS[3] = {V3(0.1, -2, 3), V3(0, 0, 0), V3(-4, 0.5, -0.25)};
static Q quat(const M3& R) { return Q(R); }

struct Ref
{
    M3 R = M3::Identity();
    V3 p = V3::Zero();
    P::STORAGE_TYPE s = P::EULER;
};
static void check(mc::Ctx& c, const P& x, const Ref& r)
{
    c.eqI(x.getStorageType(), r.s, "storage");
    c.eqM(x.getRotationMatrix().toImplementation(), r.R, "rotation matrix", 1e-9);
    c.eqM(x.getRotationQuaternion().matrix(), r.R, "quaternion", 1e-9);
    c.eqM(x.getEulerAnglesXyz().matrix(), r.R, "Euler angles", 1e-9);
    c.eqM(V3(x.position().toImplementation()), r.p, "position", 1e-12);
    for (int k = 0; k < 3; k++)
    {
        V3 e = V3::Unit(k) * (k + 1.5);
        c.eqM(x.rotateBaseToInertia<V3>(e), V3(r.R * e), "base to inertia", 1e-9);
        c.eqM(x.rotateInertiaToBase<V3>(e), V3(r.R.transpose() * e), "inertia to base", 1e-9);
    }
    M3 m;
    m << 1, 2, 3, -4, 5, 6, 7, 8, -9;
    c.eqM(x.rotateBaseToInertiaMat(m), M3(r.R * m), "matrix to inertia", 1e-9);
    M3 o = xyz(V3(-0.4, 0.9, 1.7));
    c.eqM(x.rotateBaseToInertiaQuaternion(kindr::RotationQuaternion<double>(quat(o))).matrix(), M3(r.R * o), "quaternion to inertia", 1e-9);
    c.eqM(x.computeGravityB(), V3(r.R.transpose() * V3(0, 0, -9.81)), "gravity", 1e-9);
    c.eqM(x.computeGravityB(V3(1, 2, 3)), V3(r.R.transpose() * V3(1, 2, 3)), "given gravity", 1e-9);
    V6 g;
    g << V3::Zero(), r.R.transpose() * V3(0, 0, -9.81);
    c.eqM(x.computeGravityB6D(), g, "6D gravity", 1e-9);
    g.tail<3>() = r.R.transpose() * V3(1, 2, 3);
    c.eqM(x.computeGravityB6D(V3(1, 2, 3)), g, "6D given gravity", 1e-9);
    c.step();
}
static M4 hom(const M3& R, const V3& p)
{
    M4 h = M4::Identity();
    h.topLeftCorner<3, 3>() = R;
    h.topRightCorner<3, 1>() = p;
    return h;
}
static P make(mc::Ctx& c, Ref& r, int nrot)
{
    r.s = c.flip() ? P::QUAT : P::EULER;
    int e = c.choose(nrot);
    r.R = xyz(EUL[e]);
    r.p = POS[e % 3];
    typedef kindr::Position<double, 3> K;
    switch (c.choose(6))
    {
        case 0:
            r.R.setIdentity();
            r.p.setZero();
            return P(r.s);
        case 1:
            return P(kindr::EulerAnglesXyz<double>(EUL[e]), K(r.p), r.s);
        case 2:
            return P(kindr::RotationQuaternion<double>(quat(r.R)), K(r.p), r.s);
        case 3:
            return P(quat(r.R), r.p, r.s);
        case 4:
            return P(hom(r.R, r.p), r.s);
        default:
        {
            P a(kindr::EulerAnglesXyz<double>(EUL[e]), K(r.p), r.s);
            return P(a);
        }
    }
}
static void edit(mc::Ctx& c, P& x, Ref& r)
{
    int op = c.choose(9), e = op < 5 ? c.choose(5) : 0;
    M3 R = xyz(EUL[e]);
    switch (op)
    {
        case 0:
            x.setFromEulerAnglesXyz(kindr::EulerAnglesXyz<double>(EUL[e]));
            r.R = R;
            break;
        case 1:
            x.setFromEulerAnglesXyz(EUL[e]);
            r.R = R;
            break;
        case 2:
            x.setFromRotationQuaternion(kindr::RotationQuaternion<double>(quat(R)));
            r.R = R;
            break;
        case 3:
            x.setFromRotationQuaternion(quat(R));
            r.R = R;
            break;
        case 4:
            x.setFromRotationMatrix(kindr::RotationMatrix<double>(R));
            r.R = R;
            break;
        case 5:
            x.position().toImplementation() = V3(7, 8, 9);
            r.p = V3(7, 8, 9);
            break;
        case 6:
            x.setIdentity();
            r.R.setIdentity();
            r.p.setZero();
            break;
        case 7:
        {  // assignment carries everything over
            Ref o;
            o.s = r.s == P::EULER ? P::QUAT : P::EULER;
            o.R = xyz(EUL[3]);
            o.p = POS[2];
            P y(hom(o.R, o.p), o.s);
            x = y;
            y.setIdentity();
            r = o;
            break;
        }
        default:
        {
            P y(x);
            y.setFromEulerAnglesXyz(V3(1, 0.2, 0.3));
            y.position().toImplementation() = V3(9, 9, 9);
            break;  // x keeps its value
        }
    }
}
MC_SUITE(pose_histories, "every constructor x storage x all sequences of 2 (thorough 3) edits")
{
    Ref r;
    P x = make(c, r, 3);
    check(c, x, r);
    for (int i = 0; i < (c.thorough ? 3 : 2); i++)
    {
        edit(c, x, r);
        check(c, x, r);
    }
    P y(x);
    c.check(x.isNear(y), "a pose is near its copy");
    y.position().toImplementation() += V3(0, 0, 1e-3);
    c.check(!x.isNear(y), "a pose is not near one elsewhere");
    P z(x);
    z.setFromRotationMatrix(kindr::RotationMatrix<double>(M3(r.R * rot(1, 1e-3))));
    c.check(!x.isNear(z), "a pose is not near one turned");
    c.state(c.hist);
}
MC_SUITE(relative_poses, "all pairs of poses in both storages")
{
    Ref a, b;
    a.s = c.flip() ? P::QUAT : P::EULER;
    b.s = c.flip() ? P::QUAT : P::EULER;
    int i = c.choose(7), j = c.choose(7), k = c.choose(3), l = c.choose(3);
    a.R = xyz(EUL[i]);
    b.R = xyz(EUL[j]);
    a.p = POS[k];
    b.p = POS[l];
    P x(hom(a.R, a.p), a.s), y(hom(b.R, b.p), b.s);
    P z = x.inReferenceFrame(y);
    Ref r;
    r.s = z.getStorageType();
    r.R = b.R.transpose() * a.R;
    r.p = b.R.transpose() * (a.p - b.p);
    check(c, z, r);
    check(c, x, a);
    check(c, y, b);
    RigidBodyState s(a.s);
    s.pose() = x;
    s.velocities().getTranslationalVelocity().toImplementation() = V3(1, -2, 0.5);
    c.eqM(V3(s.computeTranslationalVelocityW().toImplementation()), V3(a.R * V3(1, -2, 0.5)), "velocity in the world", 1e-9);
    const RigidBodyState& cs = s;
    c.eqM(V3(cs.computeTranslationalVelocityW().toImplementation()), V3(a.R * V3(1, -2, 0.5)), "velocity in the world (const)", 1e-9);
    V6 v;
    v << 1, 2, 3, 4, 5, 6;
    s.velocities().setVector(v);
    c.eqM(V3(s.velocities().getRotationalVelocity().toImplementation()), V3(1, 2, 3), "rotational velocity");
    c.eqM(V3(s.velocities().getTranslationalVelocity().toImplementation()), V3(4, 5, 6), "translational velocity");
    c.eqM(s.velocities().getVector(), v, "velocity vector");
    RigidBodyState t(s);
    c.check(t.isApprox(s), "a copy is near");
    t.velocities().setVector(2 * v);
    c.check(!t.isApprox(s), "a state with another velocity is not near");
    t = s;
    c.check(t.isApprox(s), "an assigned state is near");
    t.setIdentity();
    Ref id;
    id.s = t.pose().getStorageType();
    check(c, t.pose(), id);
    c.eqM(t.velocities().getVector(), V6(V6::Zero()), "no velocity");
    c.eqM(s.velocities().getVector(), v, "original keeps its velocity");
    c.state(c.hist);
}

// states of robots with three joints
typedef RBDState<3> S3;
struct RRef
{
    Ref b;
    V3 w = V3::Zero(), v = V3::Zero(), q = V3::Zero(), qd = V3::Zero();
};
static Eigen::Matrix<double, 3, 1> e3(const V3& x) { return x; }
static Eigen::Matrix<double, 19, 1> quatVec(const RRef& r, double sign)
{
    Eigen::Matrix<double, 19, 1> x;
    Q q = quat(r.b.R);
    x << sign * q.w(), sign * q.x(), sign * q.y(), sign * q.z(), r.b.p, r.q, r.w, r.v, r.qd;
    return x;
}
static Eigen::Matrix<double, 18, 1> eulVec(const RRef& r, const V3& e)
{
    Eigen::Matrix<double, 18, 1> x;
    x << e, r.b.p, r.q, r.w, r.v, r.qd;
    return x;
}
static void checkRbd(mc::Ctx& c, const S3& s, const RRef& r)
{
    check(c, s.basePose(), r.b);
    V6 bv;
    bv << r.w, r.v;
    c.eqM(s.baseVelocities().getVector(), bv, "base velocities");
    c.eqM(V3(s.baseLocalAngularVelocity().toImplementation()), r.w, "angular velocity");
    c.eqM(V3(s.baseLinearVelocity().toImplementation()), r.v, "linear velocity");
    c.eqM(V3(s.jointPositions()), r.q, "joint positions");
    c.eqM(V3(s.jointVelocities()), r.qd, "joint velocities");
    c.eqM(V3(s.joints().getPositions()), r.q, "joint positions");
    Eigen::Matrix<double, 18, 1> e = s.toStateVectorEulerXyz();
    c.eqM(xyz(e.head<3>()), r.b.R, "Euler angles of the state vector", 1e-9);
    c.eqM(e, eulVec(r, e.head<3>()), "Euler state vector");
    Eigen::Matrix<double, 18, 1> u = s.toStateVectorEulerXyzUnique();
    c.eqM(xyz(u.head<3>()), r.b.R, "unique Euler angles of the state vector", 1e-9);
    c.eqM(u, eulVec(r, u.head<3>()), "unique Euler state vector");
    c.eqM(Eigen::Matrix<double, 9, 1>(s.toCoordinatePosition()), Eigen::Matrix<double, 9, 1>(e.head<9>()), "coordinate position");
    c.eqM(Eigen::Matrix<double, 9, 1>(s.toCoordinatePositionUnique()), Eigen::Matrix<double, 9, 1>(u.head<9>()), "unique coordinate position");
    c.eqM(Eigen::Matrix<double, 9, 1>(s.toCoordinateVelocity()), Eigen::Matrix<double, 9, 1>(e.tail<9>()), "coordinate velocity");
    Eigen::Matrix<double, 19, 1> qv = s.toStateVectorQuaternion();
    c.eqM(Q(qv(0), qv(1), qv(2), qv(3)).toRotationMatrix(), r.b.R, "quaternion of the state vector", 1e-9);
    Eigen::Matrix<double, 15, 1> rest = qv.tail<15>(), want = quatVec(r, 1).tail<15>();
    c.eqM(rest, want, "rest of the quaternion state vector");
    c.step();
}
static RRef someState(int k, P::STORAGE_TYPE st)
{
    RRef r;
    r.b.s = st;
    r.b.R = xyz(EUL[k]);
    r.b.p = POS[k % 3];
    r.w = V3(0.1 + k, 0.2, -0.3);
    r.v = V3(1, 2 - k, 3);
    r.q = V3(0.5, -0.5 * k, 1.5);
    r.qd = V3(-1, 4, 2 + k);
    return r;
}
MC_SUITE(robot_state_histories, "RBDState: all sequences of 3 (thorough 4) operations out of 11 in both storages")
{
    P::STORAGE_TYPE st = c.flip() ? P::QUAT : P::EULER;
    S3 s(st);
    RRef r;
    r.b.s = st;
    checkRbd(c, s, r);
    for (int i = 0; i < (c.thorough ? 4 : 3); i++)
    {
        int op = c.choose(11), k = i + 1;
        RRef n = someState(k, st);
        switch (op)
        {
            case 0:
                s.fromStateVectorQuaternion(S3::state_vector_quat_t(quatVec(n, 1)));
                r = n;
                break;
            case 1:
                s.fromStateVectorQuaternion(S3::state_vector_quat_t(quatVec(n, -1)));
                r = n;
                break;
            case 2:
                s.fromStateVectorEulerXyz(S3::state_vector_euler_t(eulVec(n, EUL[k])));
                r = n;
                break;
            case 3:
                s.fromStateVectorRaw(S3::state_vector_quat_t(quatVec(n, 1)));
                r = n;
                break;
            case 4:
                s.fromStateVectorRaw(S3::state_vector_euler_t(eulVec(n, EUL[k])));
                r = n;
                break;
            case 5:
                s.setZero();
                r = RRef();
                r.b.s = st;
                break;
            case 6:
                s.setDefault();
                r = RRef();
                r.b.s = st;
                break;
            case 7:
                s.basePose().setFromRotationMatrix(kindr::RotationMatrix<double>(n.b.R));
                s.jointPositions() = n.q;
                s.baseLinearVelocity().toImplementation() = n.v;
                r.b.R = n.b.R;
                r.q = n.q;
                r.v = n.v;
                break;
            case 8:
                s.baseLocalAngularVelocity().toImplementation() = n.w;
                s.joints().getVelocities() = n.qd;
                s.base().pose().position().toImplementation() = n.b.p;
                r.w = n.w;
                r.qd = n.qd;
                r.b.p = n.b.p;
                break;
            case 9:
            {
                S3 t(s);
                checkRbd(c, t, r);
                t.setZero();
                S3 u(st);
                u = s;
                c.check(u.isApprox(s, 1e-9), "assigned state is near");
                u.jointVelocities()(2) += 1;
                c.check(!u.isApprox(s, 1e-9), "state with another joint velocity is not near");
                break;
            }
            default:
            {
                S3 t(s.base(), s.joints());
                checkRbd(c, t, r);
                s = t;
            }
        }
        checkRbd(c, s, r);
    }
    c.state(c.hist);
}
template <class T>
static void checkDerivative(mc::Ctx& c, const T& state, const RRef& r, const RBDAcceleration<3>& a, const V3& e)
{
    // the rate of the orientation must turn the base with the angular velocity: dR/dt = R [w]
    M3 want = r.b.R * skew(r.w);
    const double h = 1e-6;
    Eigen::Matrix<double, 18, 1> d = a.toStateUpdateVectorEulerXyz(state);
    V3 ev = state.basePose().getEulerAnglesXyz().toImplementation();
    M3 num = (xyz(V3(ev + h * d.template head<3>())) - xyz(V3(ev - h * d.template head<3>()))) / (2 * h);
    c.eqM(num, want, "Euler rates", 1e-6);
    Eigen::Matrix<double, 15, 1> rest;
    rest << r.b.R * r.v, r.qd, V3(1, 2, 3), V3(4, 5, 6), V3(7, 8, 9);
    c.eqM(Eigen::Matrix<double, 15, 1>(d.template tail<15>()), rest, "rest of the Euler derivative", 1e-9);
    Eigen::Matrix<double, 19, 1> q = a.toStateUpdateVectorQuaternion(state), x = state.toStateVectorQuaternion();
    Eigen::Vector4d x0 = x.template head<4>(), dq = q.template head<4>();
    auto R = [](const Eigen::Vector4d& v) { return Q(v(0), v(1), v(2), v(3)).toRotationMatrix(); };
    c.eqM(M3((R(x0 + h * dq) - R(x0 - h * dq)) / (2 * h)), want, "quaternion rates", 1e-6);
    c.check(std::fabs(x0.dot(dq)) < 1e-9, "quaternion stays normalised");
    c.eqM(Eigen::Matrix<double, 15, 1>(q.template tail<15>()), rest, "rest of the quaternion derivative", 1e-9);
    c.step();
}
MC_SUITE(state_derivatives, "7 orientations x 4 angular x 3 linear velocities x both storages")
{
    P::STORAGE_TYPE st = c.flip() ? P::QUAT : P::EULER;
    int k = c.choose(7);
    RRef r = someState(k, st);
    int a = c.choose(4);
    r.w = a == 3 ? V3(0.4, -0.7, 1.3) : V3(V3::Unit(a));
    r.v = V3::Unit(c.choose(3)) * 2;
    S3 s(st);
    s.fromStateVectorEulerXyz(S3::state_vector_euler_t(eulVec(r, EUL[k])));
    RBDAcceleration<3> acc;
    c.eqM(Eigen::Matrix<double, 9, 1>(acc.toCoordinateAcceleration()), Eigen::Matrix<double, 9, 1>(Eigen::Matrix<double, 9, 1>::Zero()), "no acceleration at first");
    V6 b;
    b << 1, 2, 3, 4, 5, 6;
    acc.base().fromVector6d(b);
    acc.joints().setAcceleration(V3(7, 8, 9));
    checkDerivative(c, s, r, acc, EUL[k]);
    Eigen::Matrix<double, 9, 1> all;
    all << b, 7, 8, 9;
    c.eqM(Eigen::Matrix<double, 9, 1>(acc.toCoordinateAcceleration()), all, "coordinate acceleration");
    c.eqM(acc.base().getVector6d(), b, "base acceleration");
    c.eqM(acc.base().accelerations(), b, "base acceleration as twist");
    c.eqM(V3(acc.base().getAngularAcceleration().toImplementation()), V3(1, 2, 3), "angular acceleration");
    c.eqM(V3(acc.base().getTranslationalAcceleration().toImplementation()), V3(4, 5, 6), "linear acceleration");
    RBDAcceleration<3> two(acc.base(), acc.joints());
    c.eqM(Eigen::Matrix<double, 9, 1>(two.toCoordinateAcceleration()), all, "constructed acceleration");
    two.setZero();
    c.eqM(Eigen::Matrix<double, 9, 1>(two.toCoordinateAcceleration()), Eigen::Matrix<double, 9, 1>(0 * all), "zeroed acceleration");
    c.eqM(Eigen::Matrix<double, 9, 1>(RBDAcceleration<3>::Zero().toCoordinateAcceleration()), Eigen::Matrix<double, 9, 1>(0 * all), "zero acceleration");
    c.state(c.hist);
}

template <size_t A>
static void floating(mc::Ctx& c)
{
    typedef FloatingBaseRobotState<3, A> F;
    typedef Eigen::Matrix<double, A, 1> VA;
    P::STORAGE_TYPE st = c.flip() ? P::QUAT : P::EULER;
    F s(st);
    RRef r;
    r.b.s = st;
    VA act = VA::Zero();
    for (int i = 0; i < 3; i++)
    {
        int k = i + 1;
        RRef n = someState(k, st);
        VA na;
        for (size_t j = 0; j < A; j++)
            na(j) = 10 * k + j;
        typename F::state_vector_quat_t qx;
        typename F::state_vector_euler_t ex;
        qx.template head<19>() = quatVec(n, 1);
        qx.template tail<A>() = na;
        ex.template head<18>() = eulVec(n, EUL[k]);
        ex.template tail<A>() = na;
        switch (c.choose(8))
        {
            case 0:
                s.fromStateVectorQuaternion(qx);
                r = n;
                act = na;
                break;
            case 1:
                s.fromStateVectorEulerXyz(ex);
                r = n;
                act = na;
                break;
            case 2:
                s.fromStateVectorRaw(qx);
                r = n;
                act = na;
                break;
            case 3:
                s.fromStateVectorRaw(ex);
                r = n;
                act = na;
                break;
            case 4:
                s.setZero();
                r = RRef();
                r.b.s = st;
                act.setZero();
                break;
            case 5:
                s.actuatorState() = na;
                act = na;
                break;
            case 6:
            {
                F t(s);
                t.setZero();
                F u(s.rbdState(), s.actuatorState());
                c.eqM(VA(u.actuatorState()), act, "actuator state of a constructed state");
                checkRbd(c, u.rbdState(), r);
                break;
            }
            default:
            {
                F u(s.base(), s.joints(), s.actuatorState());
                s = u;
            }
        }
        checkRbd(c, s.rbdState(), r);
        const F& cs = s;
        c.eqM(VA(cs.actuatorState()), act, "actuator state");
        typename F::state_vector_euler_t e = s.toStateVectorEulerXyz(), u = s.toStateVectorEulerXyzUnique();
        typename F::state_vector_quat_t q = s.toStateVectorQuaternion();
        c.eqM(Eigen::Matrix<double, 18, 1>(e.template head<18>()), Eigen::Matrix<double, 18, 1>(cs.rbdState().toStateVectorEulerXyz()), "Euler part");
        c.eqM(Eigen::Matrix<double, 18, 1>(u.template head<18>()), Eigen::Matrix<double, 18, 1>(cs.rbdState().toStateVectorEulerXyzUnique()), "unique Euler part");
        c.eqM(Eigen::Matrix<double, 19, 1>(q.template head<19>()), Eigen::Matrix<double, 19, 1>(cs.rbdState().toStateVectorQuaternion()), "quaternion part");
        c.eqM(VA(e.template tail<A>()), act, "actuator part (Euler)");
        c.eqM(VA(u.template tail<A>()), act, "actuator part (unique)");
        c.eqM(VA(q.template tail<A>()), act, "actuator part (quaternion)");
    }
    c.state(c.hist);
}
MC_SUITE(floating_robot_state, "floating-base robot state with 0 and 2 actuator states: all sequences of 3 operations out of 8")
{
    if (c.flip())
        floating<2>(c);
    else
        floating<0>(c);
}
template <size_t A>
static void fixed(mc::Ctx& c)
{
    typedef FixBaseRobotState<3, A> F;
    typedef Eigen::Matrix<double, A, 1> VA;
    F s;
    s.setZero();
    V3 q = V3::Zero(), qd = V3::Zero();
    VA act = VA::Zero();
    for (int i = 0; i < 3; i++)
    {
        V3 nq(i + 1, 2 * i, -3), nd(0.5, -i, 4 + i);
        VA na;
        for (size_t j = 0; j < A; j++)
            na(j) = 10 * (i + 1) + j;
        typename F::state_vector_t x;
        x.template head<3>() = nq;
        x.template segment<3>(3) = nd;
        x.template tail<A>() = na;
        switch (c.choose(6))
        {
            case 0:
                s.fromStateVector(x);
                q = nq;
                qd = nd;
                act = na;
                break;
            case 1:
                s = F(x);
                q = nq;
                qd = nd;
                act = na;
                break;
            case 2:
                s.joints().getPositions() = nq;
                q = nq;
                break;
            case 3:
                s.joints().getVelocities() = nd;
                s.actuatorState() = na;
                qd = nd;
                act = na;
                break;
            case 4:
                s.setZero();
                q.setZero();
                qd.setZero();
                act.setZero();
                break;
            default:
            {
                F t(s);
                F u(t.joints(), t.actuatorState());
                t.setZero();
                s = u;
            }
        }
        c.eqM(V3(s.joints().getPositions()), q, "joint positions");
        c.eqM(V3(s.joints().getVelocities()), qd, "joint velocities");
        c.eqM(VA(s.actuatorState()), act, "actuator state");
        typename F::state_vector_t v = s.toStateVector();
        Eigen::Matrix<double, 6, 1> j;
        j << q, qd;
        c.eqM(Eigen::Matrix<double, 6, 1>(v.template head<6>()), j, "joint part");
        c.eqM(VA(v.template tail<A>()), act, "actuator part");
        c.eqM(V3(F::jointStateFromVector(v).getPositions()), q, "joint positions of a vector");
        c.eqM(V3(F::jointStateFromVector(v).getVelocities()), qd, "joint velocities of a vector");
        c.eqM(VA(F::actuatorStateFromVector(v)), act, "actuator state of a vector");
        c.eqM(Eigen::VectorXd(F::toFullState(ct::core::StateVector<6>(j), typename F::actuator_state_vector_t(act))), Eigen::VectorXd(v), "full state");
        RRef r;
        r.q = q;
        r.qd = qd;
        checkRbd(c, F::rbdStateFromVector(v), r);
        r.b.R = xyz(EUL[i]);
        r.b.p = POS[i];
        P b(hom(r.b.R, r.b.p));
        checkRbd(c, F::rbdStateFromVector(v, b), r);
        checkRbd(c, s.toRBDState(b), r);
    }
    c.state(c.hist);
}
MC_SUITE(fixed_robot_state, "fixed-base robot state with 0 and 2 actuator states: all sequences of 3 operations out of 6")
{
    if (c.flip())
        fixed<2>(c);
    else
        fixed<0>(c);
}
MC_SUITE(forces_and_selection, "spatial force vectors and selection matrices")
{
    V6 a, b;
    for (int i = 0; i < 6; i++)
    {
        a(i) = i + 1;
        b(i) = 10 - 3 * i;
    }
    SpatialForceVector<double> f(a);
    c.eqM(V3(f.torque()), V3(1, 2, 3), "torque");
    c.eqM(V3(f.force()), V3(4, 5, 6), "force");
    const SpatialForceVector<double>& cf = f;
    c.eqM(V3(cf.torque()), V3(1, 2, 3), "torque (const)");
    c.eqM(V3(cf.force()), V3(4, 5, 6), "force (const)");
    c.eqM(V6(f + b), V6(a + b), "sum");
    c.eqM(V6(f - b), V6(a - b), "difference");
    c.eqM(V6(f * 2.5), V6(a * 2.5), "product");
    c.eqM(V6(f / 4), V6(a / 4), "quotient");
    c.check(f == a && !(f == b) && f != b && !(f != a), "comparison");
    f.force() = V3(7, 8, 9);
    f.torque()(0) = -1;
    V6 w;
    w << -1, 2, 3, 7, 8, 9;
    c.eqM(f.toImplementation(), w, "edited");
    f.setZero();
    c.eqM(f.toImplementation(), V6(V6::Zero()), "zeroed");
    bool fb = c.flip();
    SelectionMatrix<3, 9> s(fb);
    Eigen::Matrix<double, 3, 9> e = Eigen::Matrix<double, 3, 9>::Zero();
    e.rightCols<3>().setIdentity();
    c.eqM(Eigen::Matrix<double, 3, 9>(s), e, "selection matrix");
    SelectionMatrix<3, 9> t(s);
    s.setConstant(3);
    s.setIdentity(!fb);
    c.eqM(Eigen::Matrix<double, 3, 9>(s), e, "selection matrix set again");
    c.eqM(Eigen::Matrix<double, 3, 9>(t), e, "copied selection matrix");
    SelectionMatrix<2, 2> small(false);
    c.eqM(Eigen::Matrix2d(small), Eigen::Matrix2d(Eigen::Matrix2d::Identity()), "selection matrix of a fixed base");
    bool threw = false;
    try
    {
        SelectionMatrix<2, 2> bad(true);
    }
    catch (const std::runtime_error&)
    {
        threw = true;
    }
    c.check(threw, "too small selection matrix refused");
    c.step();
    c.state(c.hist);
}
