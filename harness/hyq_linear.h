#pragma once
#include "hyq_ref.h"
template <class L>
static void linearised(mc::Ctx& c, bool contact)
{
    VX x = hyqState(c, 3, c.thorough ? 3 : 1), u = pattern(12, 2, 40);
    MX H;
    VX a = hyqOde(x, u, contact, &H).tail(18);
    MX B = MX::Zero(36, 12);
    B.bottomRows(18) = H.inverse().rightCols(12);
    MX A = differences([&](const VX& y) { return hyqResidual(y, u, a, contact); }, x, 2.5e-3);
    A.bottomRows(18) = H.inverse() * MX(A.bottomRows(18));
    typename L::state_vector_t xs(x), x0;
    typename L::control_vector_t us(u), u0;
    x0.setConstant(0.2);
    u0.setConstant(-1);
    for (int k = 0; k < 4; k++)
    {
        std::shared_ptr<L> l(new L);
        if (k)
        {
            l->getDerivativeState(x0, u0, 0.0);
            l->getDerivativeControl(x0, u0, 0.0);
        }
        if (k == 2)
            l.reset(new L(*l));
        if (k == 3)
            l.reset(l->clone());
        c.eqM(MX(l->getDerivativeState(xs, us, 0.0)), A, "state derivative", 1e-5);
        c.eqM(MX(l->getDerivativeControl(xs, us, 0.0)), B, "control derivative", 1e-7);
        c.step(2);
    }
    c.state(c.hist);
}
