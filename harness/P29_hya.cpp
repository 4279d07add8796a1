// P29: generated robot models with a fixed base against a reference model of the rigid-body tree
// MC_FLAGS: -I@R@/ct_rbd/include/ct -DNDEBUG
// MC_SHARDS: 8
#include <ct/models/HyA/generated/jacobians.h>
#include <ct/models/HyA/generated/traits.h>
#include <ct/models/InvertedPendulum/generated/jacobians.h>
#include <ct/models/InvertedPendulum/generated/traits.h>
#include <ct/models/DoubleInvertedPendulum/generated/jacobians.h>
#include <ct/models/DoubleInvertedPendulum/generated/traits.h>
#include "robot_suites.h"
DEFINE_ROBOT(HyA, ct_HyA, HYA)
DEFINE_ROBOT(Pend, ct_InvertedPendulum, INVERTEDPENDULUM)
DEFINE_ROBOT(Pend2, ct_DoubleInvertedPendulum, DOUBLEINVERTEDPENDULUM)
static Tree hya() { return makeTree(HYA_links, HYA_frames); }
static Tree pend() { return makeTree(INVERTEDPENDULUM_links, INVERTEDPENDULUM_frames); }
static Tree pend2() { return makeTree(DOUBLEINVERTEDPENDULUM_links, DOUBLEINVERTEDPENDULUM_frames); }
MC_SUITE(inertias, "masses, centres of mass and tensors of all links of three robots")
{
    switch (c.choose(3))
    {
        case 0: inertias<HyA>(c, hya()); break;
        case 1: inertias<Pend>(c, pend()); break;
        default: inertias<Pend2>(c, pend2());
    }
}
MC_SUITE(hya_kinematics, "HyA: every transform and Jacobian at 3^6 (thorough 4^6) configurations") { transforms<HyA>(c, hya(), 6, c.thorough ? 4 : 3); }
MC_SUITE(pendulum_kinematics, "pendulums: every transform and Jacobian at 5 configurations per joint")
{
    if (c.flip())
        transforms<Pend>(c, pend(), 1, 5);
    else
        transforms<Pend2>(c, pend2(), 2, 5);
}
MC_SUITE(hya_dynamics, "HyA: forward and inverse dynamics and inertia matrix at 3^6 (thorough 5^6) configurations x velocity, force and external force patterns") { fixedGrid<HyA>(c, hya(), 6, c.thorough ? 5 : 3, c.thorough ? 4 : 2); }
MC_SUITE(pendulum_dynamics, "pendulums: forward and inverse dynamics and inertia matrix at 5 configurations per joint")
{
    if (c.flip())
        fixedGrid<Pend>(c, pend(), 1, 5, 6);
    else
        fixedGrid<Pend2>(c, pend2(), 2, 5, 6);
}
MC_SUITE(hya_histories, "HyA: all sequences of 3 calls out of 18 on engines sharing their transforms") { fixedHistory<HyA>(c, hya(), 3); }
MC_SUITE(pendulum_histories, "pendulums: all sequences of 3 (thorough 4) calls out of 18 on engines sharing their transforms")
{
    if (c.flip())
        fixedHistory<Pend>(c, pend(), c.thorough ? 4 : 3);
    else
        fixedHistory<Pend2>(c, pend2(), c.thorough ? 4 : 3);
}
