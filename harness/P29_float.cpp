// P29: generated robot models with a floating base against a reference model of the rigid-body tree
// MC_FLAGS: -I@R@/ct_rbd/include/ct -DNDEBUG
// MC_SHARDS: 8
#include <ct/models/HyQ/generated/jacobians.h>
#include <ct/models/HyQ/generated/traits.h>
#include <ct/models/QuadrotorWithLoad/generated/jacobians.h>
#include <ct/models/QuadrotorWithLoad/generated/traits.h>
#include "robot_suites.h"
DEFINE_ROBOT(Hyq, HyQ, HYQ)
DEFINE_ROBOT(Quad, ct_quadrotor, QUADROTORWITHLOAD)
static M6 rigid(double m, V3 com, double xx, double yy, double zz, double xy, double xz, double yz)
{
    M3 I;
    I << xx, -xy, -xz, -xy, yy, -yz, -xz, -yz, zz;
    M6 r;
    r << I, m * skew(com), m * skew(com).transpose(), m * M3::Identity();
    return r;
}
static Tree hyq()
{
    Tree t = makeTree(HYQ_links, HYQ_frames);
    t.baseI = rigid(53.433, V3(-0.0223, -1e-4, 0.0387), 1.209488, 5.5837, 6.056973, 0.00571, -0.190812, -0.012668);
    return t;
}
static Tree quad()
{
    Tree t = makeTree(QUADROTORWITHLOAD_links, QUADROTORWITHLOAD_frames);
    t.baseI = rigid(0.5, V3::Zero(), 0.03, 0.05, 0.03, 0, 0, 0);
    return t;
}
MC_SUITE(inertias, "masses, centres of mass and tensors of all links of two robots")
{
    if (c.flip())
    {
        Hyq r;
        c.eqM(M6(r.ip.getTensor_trunk()), hyq().baseI, "inertia of trunk", 1e-12);
        c.eqM(V3(r.ip.getCOM_trunk()), V3(-0.0223, -1e-4, 0.0387), "centre of mass of trunk", 1e-12);
        inertias<Hyq>(c, hyq());
    }
    else
    {
        Quad r;
        c.eqM(M6(r.ip.getTensor_body()), quad().baseI, "inertia of body", 1e-12);
        inertias<Quad>(c, quad());
    }
}
MC_SUITE(hyq_kinematics, "HyQ: every transform and Jacobian at 5^3 configurations of every leg") { transforms<Hyq>(c, hyq(), 3, 5); }
MC_SUITE(quad_kinematics, "quadrotor with load: every transform and Jacobian at 5^2 configurations") { transforms<Quad>(c, quad(), 2, 5); }
MC_SUITE(hyq_dynamics, "HyQ: forward and inverse dynamics and inertia matrix at 5^3 configurations of every leg x patterns") { floatGrid<Hyq>(c, hyq(), 3, 5, c.thorough ? 8 : 4); }
MC_SUITE(quad_dynamics, "quadrotor with load: forward and inverse dynamics and inertia matrix at 5^2 configurations x patterns") { floatGrid<Quad>(c, quad(), 2, 5, 8); }
MC_SUITE(hyq_histories, "HyQ: all sequences of 2 (thorough 3) calls out of 21 on engines sharing their transforms") { floatHistory<Hyq>(c, hyq(), c.thorough ? 3 : 2); }
MC_SUITE(quad_histories, "quadrotor with load: all sequences of 3 calls out of 21 on engines sharing their transforms") { floatHistory<Quad>(c, quad(), 3); }
