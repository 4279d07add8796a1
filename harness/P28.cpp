// P28: spatial algebra of rigid bodies (iit/rbd) against dense 6x6 algebra.
// The optimised expressions are polynomials of low degree in their arguments, so a grid with more points per variable
// than the degree in that variable (and all unit coefficients of linear arguments) leaves no room for a wrong one.
// MC_FLAGS: -I@R@/ct_rbd/include/ct -Wno-missing-template-keyword
// MC_SHARDS: 4
#include <Eigen/Dense>
#include <iit/rbd/rbd.h>
#include <iit/rbd/InertiaMatrix.h>
#include <iit/rbd/utils.h>
#include <iit/rbd/robcogen_commons.h>
#include <iit/rbd/TransformsBase.h>
#include "mc.h"
using namespace iit::rbd;
typedef Eigen::Matrix3d M3;
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix<double, 6, 6> M6;
typedef Eigen::Matrix<double, 6, 1> V6;

static M3 skew(const V3& a)
{
    M3 m;
    m << 0, -a(2), a(1), a(2), 0, -a(0), -a(1), a(0), 0;
    return m;
}
static M6 dense(double m, const V3& com, const M3& I)
{
    M6 r;
    r << I, m * skew(com), m * skew(com).transpose(), m * M3::Identity();
    return r;
}
static M3 rotx(double a)
{
    M3 m;
    m << 1, 0, 0, 0, std::cos(a), std::sin(a), 0, -std::sin(a), std::cos(a);
    return m;
}
static M3 roty(double a)
{
    M3 m;
    m << std::cos(a), 0, -std::sin(a), 0, 1, 0, std::sin(a), 0, std::cos(a);
    return m;
}
static M3 rotz(double a)
{
    M3 m;
    m << std::cos(a), std::sin(a), 0, -std::sin(a), std::cos(a), 0, 0, 0, 1;
    return m;
}
static M3 rotation(mc::Ctx& c)
{
    std::vector<double> a = {0.0, M_PI / 2, std::atan2(3.0, 4.0), -2.1};
    double x = c.pick(a), y = c.pick(a), z = c.pick(a);
    return rotz(z) * roty(y) * rotx(x);
}
static V3 vec3(mc::Ctx& c, const std::vector<double>& s)
{
    V3 v;
    for (int i = 0; i < 3; i++)
        v(i) = c.pick(s);
    return v;
}
static M3 tensor(int k)
{  // 0..5 units of a symmetric matrix, 6 zero, 7 a full one
    M3 m = M3::Zero();
    static const int I[6][2] = {{0, 0}, {0, 1}, {0, 2}, {1, 1}, {1, 2}, {2, 2}};
    if (k < 6)
        m(I[k][0], I[k][1]) = m(I[k][1], I[k][0]) = 1;
    if (k == 7)
        m << 7, -1, 2, -1, 9, 3, 2, 3, 11;
    return m;
}

MC_SUITE(inertia_histories, "all sequences of 5 (thorough 6) edits of an inertia out of 11, with two instances")
{
    M3 I0 = tensor(7), I1;
    I1 << 4, 1, 0.5, 1, 5, -0.25, 0.5, -0.25, 6;
    V3 c0(1, -2, 3), c1(-0.5, 0.25, 2), c2(0, 0, 0);
    struct Ref
    {
        double m;
        V3 c;
        M3 I;
    } r, o;
    bool ctor = c.flip();
    r = {2, c0, I0};
    o = {0.5, c1, I1};
    std::unique_ptr<InertiaMatrixDense> p(ctor ? new InertiaMatrixDense(2, c0, I0) : new InertiaMatrixDense());
    if (!ctor)
    {
        c.eqM(M6(*p).topRightCorner<3, 3>().diagonal(), V3(0, 0, 0), "structural zeros", 0);
        p->fill(2, c0, I0);
    }
    InertiaMatrixDense q(0.5, c1, I1);
    int n = c.thorough ? 6 : 5;
    for (int k = 0; k < n; k++)
    {
        int op = c.choose(12);
        c.log() << "op " << op << "; ";
        switch (op)
        {
            case 0: p->fill(4, c1, I1); r = {4, c1, I1}; break;
            case 1: p->changeMass(8); r.I *= 8 / r.m; r.m = 8; break;
            case 2: p->changeMass(0.5); r.I *= 0.5 / r.m; r.m = 0.5; break;
            case 3: p->changeCOM(c0); r.I += r.m * (skew(c0) * skew(c0).transpose() - skew(r.c) * skew(r.c).transpose()); r.c = c0; break;
            case 4: p->changeCOM(c1); r.I += r.m * (skew(c1) * skew(c1).transpose() - skew(r.c) * skew(r.c).transpose()); r.c = c1; break;
            case 5: p->changeCOM(c2); r.I -= r.m * skew(r.c) * skew(r.c).transpose(); r.c = c2; break;
            case 6: p->changeRotationalInertia(I0); r.I = I0; break;
            case 7: p->changeRotationalInertia(I1); r.I = I1; break;
            case 8: *p = dense(o.m, o.c, o.I); r = o; break;
            case 9:
            {
                *p += M6(q);
                M6 s = dense(r.m, r.c, r.I) + dense(o.m, o.c, o.I);
                r.c = (r.m * r.c + o.m * o.c) / (r.m + o.m);
                r.I += o.I;
                r.m += o.m;
                c.eqM(dense(r.m, r.c, r.I), s, "oracle", 1e-12);
                break;
            }
            case 10: std::swap(*p, q); std::swap(r, o); break;
            default: q = *p; o = r;
        }
        c.eqM(M6(*p), dense(r.m, r.c, r.I), "inertia matrix", 1e-11);
        c.eqM(M6(q), dense(o.m, o.c, o.I), "other inertia matrix", 1e-11);
        c.eq(p->getMass(), r.m, "mass", 1e-12);
        c.eqM(p->getCOM(), r.c, "centre of mass", 1e-11);
        c.eqM(M3(p->get3x3Tensor()), r.I, "rotational inertia", 1e-11);
        c.step();
        c.state(c.hist);
    }
    InertiaMatrixDense e(*p);
    c.eqM(M6(e), M6(*p), "copy", 0);
}

MC_SUITE(bias_force, "v x* I v: every velocity in {-1,0,2}^6 x every unit coefficient of the inertia and a full one; pure rotation about z")
{
    V6 v;
    for (int i = 0; i < 6; i++)
        v(i) = c.pick<double>({0, -1, 2});
    for (int k = 0; k < 12; k++)
    {
        double m = (k == 6 || k == 11) ? 1 : 0;
        M6 I;
        if (k < 6)
            I = dense(0, V3::Zero(), tensor(k));
        else if (k == 6)
            I = dense(1, V3::Zero(), M3::Zero());
        else if (k < 10)
        {
            V3 mc_ = V3::Unit(k - 7);
            I.setZero();
            I.topRightCorner<3, 3>() = skew(mc_);
            I.bottomLeftCorner<3, 3>() = skew(mc_).transpose();
        }
        else
            I = dense(3, V3(1, -2, 0.5), tensor(7));
        (void)m;
        M6 X;
        X << skew(v.head<3>()), skew(v.tail<3>()), M3::Zero(), skew(v.head<3>());
        V6 want = X * I * v;
        c.eqM(vxIv(Velocity<double>(v), I), want, "v x* I v", 1e-13);
        if (k >= 10)
        {
            InertiaMatrixDense d(3, V3(1, -2, 0.5), tensor(7));
            c.eqM(vxIv(Velocity<double>(v), d), want, "v x* I v of an inertia", 1e-13);
        }
        V6 z = V6::Zero();
        z(2) = v(2);
        M6 Z;
        Z << skew(z.head<3>()), M3::Zero(), M3::Zero(), skew(z.head<3>());
        c.eqM(vxIv(v(2), I), V6(Z * I * z), "v x* I v for a rotation about z", 1e-13);
        c.step(2);
    }
    c.state(c.hist);
}

MC_SUITE(cross_products, "motion and force cross product matrices: every vector in {-1,0,1,2.5}^6")
{
    V6 v;
    for (int i = 0; i < 6; i++)
        v(i) = c.pick<double>({0, -1, 1, 2.5});
    M6 mot, frc;
    mot << skew(v.head<3>()), M3::Zero(), skew(v.tail<3>()), skew(v.head<3>());
    frc << skew(v.head<3>()), skew(v.tail<3>()), M3::Zero(), skew(v.head<3>());
    M6 a = M6::Zero(), b = M6::Zero(), d, e;
    motionCrossProductMx<double>(v, a);
    c.eqM(a, mot, "motion cross product", 0);
    forceCrossProductMx<double>(v, b);
    c.eqM(b, frc, "force cross product", 0);
    d.setConstant(7);
    Utils::fillAsMotionCrossProductMx<double>(v, d);
    c.eqM(d, mot, "motion cross product (utils)", 0);
    e.setConstant(7);
    Utils::fillAsForceCrossProductMx<double>(v, e);
    c.eqM(e, frc, "force cross product (utils)", 0);
    c.eqM(Utils::buildCrossProductMatrix(v.head<3>()), skew(v.head<3>()), "3d cross product", 0);
    c.eqM(V3(angularPart(v)), V3(v.head<3>()), "angular part", 0);
    c.eqM(V3(linearPart(v)), V3(v.tail<3>()), "linear part", 0);
    const V6 cv = v;
    c.eqM(V3(angularPart(cv)), V3(v.head<3>()), "angular part", 0);
    c.eqM(V3(linearPart(cv)), V3(v.tail<3>()), "linear part", 0);
    angularPart(v).setConstant(3);
    linearPart(v).setConstant(4);
    V6 w;
    w << 3, 3, 3, 4, 4, 4;
    c.eqM(v, w, "parts are views", 0);
    c.step(6);
    c.state(c.hist);
}

MC_SUITE(rotations, "rotation of symmetric and general 3x3 matrices: 64 rotations x every unit coefficient and a full matrix; rotation matrices from angles; homogeneous transforms")
{
    std::vector<double> a = {0.0, M_PI / 2, std::atan2(3.0, 4.0), -2.1};
    double x = c.pick(a), y = c.pick(a), z = c.pick(a);
    M3 E = rotz(z) * roty(y) * rotx(x);
    c.eqM(Utils::buildRotationMatrix(x, y, z), E, "rotation matrix", 1e-14);
    M3 f;
    f.setConstant(9);
    Utils::fillAsRotationMatrix(x, y, z, f);
    c.eqM(f, E, "rotation matrix (fill)", 1e-14);
    internal::Mat3x3Coefficients<double> e(E), g;
    g.read(E);
    c.eq(g.XY, E(0, 1), "XY", 0);
    c.eq(g.YX, E(1, 0), "YX", 0);
    c.eq(g.ZX, E(2, 0), "ZX", 0);
    c.eq(g.XZ, E(0, 2), "XZ", 0);
    for (int k = 0; k < 8; k++)
    {
        internal::SymmMat3x3Coefficients<double> A(tensor(k)), B;
        internal::rot_symmetric_EAET<double>(e, A, B);
        M3 r = M3::Constant(5);
        B.write(r);
        c.eqM(r, M3(E * tensor(k) * E.transpose()), "E A E^T (symmetric)", 1e-13);
        c.step();
    }
    for (int k = 0; k < 10; k++)
    {
        M3 A = M3::Zero();
        if (k < 9)
            A(k / 3, k % 3) = 1;
        else
            A << 1, 2, 3, -4, 5, 6, 7, -8, 9.5;
        internal::Mat3x3Coefficients<double> m(A), B;
        internal::rot_EAET<double>(g, m, B);
        M3 r;
        r << B.XX, B.XY, B.XZ, B.YX, B.YY, B.YZ, B.ZX, B.ZY, B.ZZ;
        c.eqM(r, M3(E * A * E.transpose()), "E A E^T", 1e-13);
        c.step();
    }
    Eigen::Matrix4d H = Eigen::Matrix4d::Identity();
    V3 p(0.5, -1, 2), w(3, 1, -2);
    H.topLeftCorner<3, 3>() = E;
    H.topRightCorner<3, 1>() = p;
    c.eqM(Utils::transform(H, w), V3(E * w + p), "transformed point", 1e-14);
    c.eqM(V3(Utils::positionVector(H)), p, "position of a transform", 0);
    c.eqM(M3(Utils::rotationMx(H)), E, "rotation of a transform", 0);
    c.eqM(V3(Utils::zAxis(H)), V3(E.col(2)), "z axis of a transform", 0);
    M3 T;
    T << 1, -4, -5, -4, 2, -6, -5, -6, 3;
    c.eqM(Utils::buildInertiaTensor<double>(1, 2, 3, 4, 5, 6), T, "inertia tensor of the moments", 0);
    Utils::CwiseAlmostZeroOp<double> az(0.5);
    c.eq(az(x), std::fabs(x) < 0.5 ? 0 : x, "rounding to zero", 0);
    c.step(3);
    c.state(c.hist);
}

// spatial force transform B_XF_A for frame B at r (in A), rotated by E
static M6 forceX(const M3& E, const V3& r)
{
    M6 X;
    X << E, -E * skew(r), M3::Zero(), E;
    return X;
}
static M6 motionX(const M3& E, const V3& r)
{
    M6 X;
    X << E, M3::Zero(), -E * skew(r), E;
    return X;
}

MC_SUITE(transform_inertia, "transformation of a rigid body inertia: 64 rotations x 27 displacements x 2 masses x 8 centres of mass x 7 tensors")
{
    M3 E = rotation(c);
    V3 r = vec3(c, {0, -1, 2});
    M6 XF = forceX(E, r);
    for (double m : {1.0, 2.5})
        for (int k = 0; k < 8; k++)
            for (int t = 0; t < 8; t++)
            {
                V3 com((k & 1) ? 1 : 0, (k & 2) ? -0.5 : 0, (k & 4) ? 3 : 0);
                InertiaMatrixDense A(m, com, tensor(t)), B;
                transformInertia<double>(A, XF, B);
                M6 want = XF * dense(m, com, tensor(t)) * XF.transpose();
                c.eqM(M6(B), want, "transformed inertia", 1e-12);
                c.step();
            }
    c.state(c.hist);
}

MC_SUITE(articulated_inertia, "articulated inertias across revolute and prismatic joints: 64 rotations x 27 displacements x every unit coefficient and full matrices")
{
    M3 E = rotation(c);
    V3 r = vec3(c, {0, -1, 2});
    // A_XM_B: maps motion vectors from B to A coordinates
    M6 XM = motionX(E, r).inverse();
    for (int pris = 0; pris < 2; pris++)
    {
        int z = pris ? 5 : 2;
        for (int i = 0; i < 6; i++)
            for (int j = i; j < 6; j++)
            {
                if (i == z || j == z)
                    continue;
                M6 A = M6::Zero(), B;
                A(i, j) = A(j, i) = 1;
                B.setConstant(3);
                if (pris)
                    ctransform_Ia_prismatic(A, XM, B);
                else
                    ctransform_Ia_revolute(A, XM, B);
                c.eqM(B, M6(XM.transpose() * A * XM), pris ? "transformed articulated inertia (prismatic)" : "transformed articulated inertia (revolute)", 1e-12);
                c.step();
            }
        for (int k = 0; k < 3; k++)
        {  // a rigid body inertia seen through the joint
            M6 IA = dense(2, V3(0.5, k - 1, 2), tensor(7) + k * M3::Identity());
            if (k == 2)
                IA(3, 3) += 2, IA(3, 4) += 0.5, IA(4, 3) += 0.5, IA(0, 3) -= 0.25, IA(3, 0) -= 0.25, IA(4, 5) += 0.125, IA(5, 4) += 0.125;
            V6 U = IA.col(z);
            double D = U(z);
            M6 Ia = M6::Zero(), B;
            if (pris)
                compute_Ia_prismatic(IA, U, D, Ia);
            else
                compute_Ia_revolute(IA, U, D, Ia);
            M6 want = IA - U * U.transpose() / D;
            c.eqM(Ia, want, pris ? "articulated inertia (prismatic)" : "articulated inertia (revolute)", 1e-12);
            B.setConstant(-8);
            if (pris)
                ctransform_Ia_prismatic(Ia, XM, B);
            else
                ctransform_Ia_revolute(Ia, XM, B);
            c.eqM(B, M6(XM.transpose() * want * XM), "transformed articulated inertia", 1e-12);
            c.step(2);
        }
    }
    c.state(c.hist);
}
MC_SUITE(articulated_inertia_units, "articulated inertia of every symmetric unit perturbation of a reference, both joints")
{
    bool pris = c.flip();
    int z = pris ? 5 : 2;
    int i = c.choose(6), j = c.choose(6), k = c.choose(6), l = c.choose(6);
    M6 IA = 10 * M6::Identity();
    IA(i, j) += 1;
    if (i != j)
        IA(j, i) += 1;
    IA(k, l) -= 2.5;
    if (k != l)
        IA(l, k) -= 2.5;
    V6 U = IA.col(z);
    M6 Ia = M6::Zero();
    if (pris)
        compute_Ia_prismatic(IA, U, U(z), Ia);
    else
        compute_Ia_revolute(IA, U, U(z), Ia);
    c.eqM(Ia, M6(IA - U * U.transpose() / U(z)), "articulated inertia", 1e-12);
    c.step();
    c.state(c.hist);
}

// state dependent transforms: update with a state, then use as a plain matrix; histories of updates and copies
struct Joint2
{
    typedef double Scalar;
    double q[2];
};
struct Rot : public RotationTransformBase<Joint2, Rot>
{
    const Rot& update(const Joint2& s)
    {
        M3 m = rotz(s.q[0]) * rotx(s.q[1]);
        for (int i = 0; i < 9; i++)
            (*this)(i / 3, i % 3) = m(i / 3, i % 3);
        return *this;
    }
};
struct Jac : public JacobianBase<Joint2, 2, Jac>
{
    const Jac& update(const Joint2& s)
    {
        for (int i = 0; i < 12; i++)
            (*this)(i / 2, i % 2) = i + s.q[i % 2];
        return *this;
    }
};
MC_SUITE(state_dependent, "state dependent matrices: all sequences of 4 updates, copies and assignments")
{
    Rot a, b;
    Jac g;
    Joint2 s0{{0.3, -0.2}}, s1{{1.1, 0.4}};
    auto val = [](const Joint2& s) { return M3(rotz(s.q[0]) * rotx(s.q[1])); };
    a(s0);
    b(s1);
    g(s0);
    M3 ra = val(s0), rb = val(s1);
    for (int k = 0; k < 4; k++)
    {
        switch (c.choose(6))
        {
            case 0: c.check(&a(s0) == &a, "update returns the matrix"); ra = val(s0); break;
            case 1: c.eqM(M3(a(s1)), val(s1), "value of the update"); ra = val(s1); break;
            case 2: b = a; rb = ra; break;
            case 3: static_cast<StateDependentMatrix<Joint2, 3, 3, Rot>&>(a) = 2 * b; ra = 2 * rb; break;
            case 4: a.setZero(); ra.setZero(); break;
            default: b(s0); rb = val(s0);
        }
        c.eqM(M3(a), ra, "matrix", 1e-15);
        c.eqM(M3(b), rb, "other matrix", 1e-15);
        c.eqM(M3(a * b), M3(ra * rb), "product", 1e-14);
        c.step();
        c.state(c.hist);
    }
    c.eqI(g.rows(), 6, "rows of a Jacobian");
    c.eqI(g.cols(), 2, "columns of a Jacobian");
    c.eq(g(5, 1), 11 - 0.2, "entry of a Jacobian");
}
