// Reference dynamics of HyQ in the coordinates of its state vector: Euler angles xyz, position, joints, then angular and
// linear velocity in the base frame and joint velocities.
#pragma once
#include "deriv.h"
static M6 rigid(double m, V3 com, double xx, double yy, double zz, double xy, double xz, double yz)
{
    M3 I;
    I << xx, -xy, -xz, -xy, yy, -yz, -xz, -yz, zz;
    M6 r;
    r << I, m * skew(com), m * skew(com).transpose(), m * M3::Identity();
    return r;
}
static Tree& hyq()
{
    static Tree t = [] {
        Tree t = makeTree(HYQ_links, HYQ_frames);
        t.baseI = rigid(53.433, V3(-0.0223, -1e-4, 0.0387), 1.209488, 5.5837, 6.056973, 0.00571, -0.190812, -0.012668);
        return t;
    }();
    return t;
}
static M3 rot(int k, double a)
{
    M3 m = M3::Identity();
    int i = (k + 1) % 3, j = (k + 2) % 3;
    m(i, i) = m(j, j) = std::cos(a);
    m(i, j) = -std::sin(a);
    m(j, i) = std::sin(a);
    return m;
}
static M3 eulerR(const V3& e) { return rot(0, e(0)) * rot(1, e(1)) * rot(2, e(2)); }
static M3 eulerE(const V3& e)
{  // rates to local angular velocity
    M3 B = rot(1, e(1)), C = rot(2, e(2)), E;
    E << (B * C).transpose() * V3::UnitX(), C.transpose() * V3::UnitY(), V3::UnitZ();
    return E;
}
static const char* const FEET[4] = {"fr_LF_foot", "fr_RF_foot", "fr_LH_foot", "fr_RH_foot"};
struct Foot
{
    int link;
    V3 pB, pW, vW;
};
static Foot foot(int i, const VX& x)
{  // the tree is at the configuration of x
    Tree& t = hyq();
    Foot f;
    f.link = t.linkOf(FEET[i]);
    f.pB = t.frame(FEET[i]).topRightCorner<3, 1>();
    V3 v = V3(x.segment<3>(18)).cross(f.pB) + V3(x.segment<3>(21));
    for (int k = 0; k < 12; k++)
        if (t.above(k, f.link))
        {
            V3 z = t.W[k].block<3, 1>(0, 2), o = t.W[k].topRightCorner<3, 1>();
            v += z.cross(f.pB - o) * x(24 + k);
        }
    M3 R = eulerR(x.head<3>());
    f.pW = x.segment<3>(3) + R * f.pB;
    f.vW = R * v;
    return f;
}
static VX hyqFeet(const VX& x)
{
    hyq().setQ(x.segment(6, 12));
    VX y(24);
    for (int i = 0; i < 4; i++)
    {
        Foot f = foot(i, x);
        y.segment<3>(6 * i) = f.pW;
        y.segment<3>(6 * i + 3) = f.vW;
    }
    return y;
}
static V6 gravityB(const VX& x)
{
    V6 g;
    g << V3::Zero(), eulerR(x.head<3>()).transpose() * V3(0, 0, -9.81);
    return g;
}
static VX hyqId(const VX& in)
{
    Tree& t = hyq();
    t.setQ(in.segment(6, 12));
    Tree::Out o = t.rnea(in.segment(24, 12), in.tail(12), in.segment<6>(18), V6(in.segment<6>(36)) - gravityB(in), V6::Zero(), t.noExt());
    VX y(18);
    y << o.wrench, o.tau;
    return y;
}
// contact: spring 5000 exp(-100 (z + 0.02)), damper 1000 scaled by the sigmoid of -100 z
static Tree::Ext feetForces(const VX& x, bool contact)
{
    Tree& t = hyq();
    Tree::Ext ext = t.noExt();
    M3 R = eulerR(x.head<3>());
    if (contact)
        for (int i = 0; i < 4; i++)
        {
            Foot f = foot(i, x);
            V3 F = -1000 * f.vW / (1 + std::exp(100 * f.pW(2)));
            F(2) += 5000 * std::exp(-100 * (f.pW(2) + 0.02));
            V3 FB = R.transpose() * F;
            V6 w;
            w << f.pB.cross(FB), FB;
            ext[f.link] += frcOf(M4(t.W[f.link].inverse())) * w;
        }
    return ext;
}
// rates of the coordinates and forces missing for the accelerations a
static VX hyqResidual(const VX& x, const VX& u, const VX& a, bool contact)
{
    Tree& t = hyq();
    t.setQ(x.segment(6, 12));
    Tree::Out o = t.rnea(x.tail(12), a.tail(12), x.segment<6>(18), V6(a.head<6>()) - gravityB(x), V6::Zero(), feetForces(x, contact));
    VX d(36);
    d << eulerE(x.head<3>()).inverse() * x.segment<3>(18), eulerR(x.head<3>()) * x.segment<3>(21), x.tail(12), -o.wrench, u - o.tau;
    return d;
}
static VX hyqOde(const VX& x, const VX& u, bool contact, MX* mass = nullptr)
{
    VX d = hyqResidual(x, u, VX::Zero(18), contact);
    MX H = hyq().massMatrix(true);
    d.tail(18) = H.ldlt().solve(VX(d.tail(18)));
    if (mass)
        *mass = H;
    return d;
}
// leg configurations x base poses x velocities; feet near the ground
static VX hyqState(mc::Ctx& c, int vals, int np)
{
    static const V3 E[6] = {V3(0.1, -0.2, 0.3), V3(0, 0, 0), V3(-0.7, 0.4, 2.1), V3(2.2, -1.1, -0.6), V3(0, 0.9, 0), V3(0.5, 0, -2.8)};
    VX x(36);
    VX q = config(c, 12, 3, vals);
    int e = c.choose(6), z = c.choose(2);
    x << E[e], 0.3, -0.4, (z ? 0.75 : 0.5), q, pattern6(1 + c.choose(np), 0.9), pattern(12, 2, 1.1);
    return x;
}
