// Sixth-order central differences of reference functions.
#pragma once
#include <functional>
#include "robot_suites.h"
static MX differences(const std::function<VX(const VX&)>& f, const VX& x, double h = 1e-2)
{
    static const double W[3] = {45.0 / 60, -9.0 / 60, 1.0 / 60};
    MX J;
    for (int k = 0; k < x.size(); k++)
    {
        VX d;
        for (int m = 1; m <= 3; m++)
        {
            VX a = x, b = x;
            a(k) += m * h;
            b(k) -= m * h;
            VX e = W[m - 1] / h * (f(a) - f(b));
            d = m == 1 ? e : VX(d + e);
        }
        if (!J.size())
            J = MX(d.size(), x.size());
        J.col(k) = d;
    }
    return J;
}
