// Reference policy (lists) and helpers shared by the MPC harnesses (P17, P18)
#pragma once
#include <ct/optcon/optcon.h>
#include <vector>
#include "mc.h"
#include "mc_file.h"
static const size_t NX = 2, NU = 1;
static const double DT = 0.25;
typedef ct::core::StateFeedbackController<NX, NU> Policy;
struct RefPolicy
{
    std::vector<Eigen::Vector2d> x;  // K+1
    std::vector<double> u;           // K
    std::vector<Eigen::RowVector2d> L;
    static RefPolicy make(int K, int salt)
    {
        RefPolicy p;
        for (int k = 0; k <= K; k++)
            p.x.push_back(Eigen::Vector2d(salt * 100 + k, -k - 0.5 * salt));
        for (int k = 0; k < K; k++)
        {
            p.u.push_back(salt * 10 + k + 1);
            p.L.push_back(Eigen::RowVector2d(0.01 * (k + 1) * salt, -0.02 * k));
        }
        return p;
    }
    Policy real() const
    {
        ct::core::StateVectorArray<NX> xs;
        ct::core::ControlVectorArray<NU> us;
        ct::core::FeedbackArray<NX, NU> Ls;
        for (auto& v : x)
            xs.push_back(ct::core::StateVector<NX>(v));
        for (auto v : u)
        {
            ct::core::ControlVector<NU> c;
            c(0) = v;
            us.push_back(c);
        }
        for (auto& v : L)
            Ls.push_back(ct::core::FeedbackMatrix<NX, NU>(v));
        return Policy(xs, us, Ls, DT);
    }
    int shiftCount(double t) const { return std::min((int)std::floor(t / DT + 1e-9), (int)u.size() - 1); }
    void drop(int n)
    {
        x.erase(x.begin(), x.begin() + n);
        u.erase(u.begin(), u.begin() + n);
        L.erase(L.begin(), L.begin() + n);
    }
    void warm(double shift, double T)
    {
        drop(shiftCount(shift));
        int K = std::max(1, (int)std::lround(T / DT));
        while ((int)u.size() < K)
        {
            u.push_back(u.back());
            L.push_back(L.back());
            x.push_back(x.back());
        }
        while ((int)u.size() > K)
        {
            u.pop_back();
            L.pop_back();
            x.pop_back();
        }
    }
    double truncate(double shift)
    {
        int n = shiftCount(shift);
        drop(n);
        return n * DT;
    }
    void compare(mc::Ctx& c, Policy p, const char* what) const
    {
        std::string w = what;
        auto& X = p.getReferenceStateTrajectory();
        auto& U = p.getFeedforwardTrajectory();
        auto& F = p.getFeedbackTrajectory();
        c.eqI(U.size(), u.size(), w + ": number of controls");
        c.eqI(F.size(), L.size(), w + ": number of gains");
        c.eqI(X.size(), x.size(), w + ": number of states");
        for (size_t k = 0; k < u.size(); k++)
        {
            c.eq(U[k](0), u[k], w + ": control " + std::to_string(k));
            c.eqM(F[k], L[k], w + ": gain " + std::to_string(k));
            c.eq(U.getTimeArray()[k], k * DT, w + ": control time");
            c.eq(F.getTimeArray()[k], k * DT, w + ": gain time");
        }
        for (size_t k = 0; k < x.size(); k++)
        {
            c.eqM(X[k], x[k], w + ": state " + std::to_string(k));
            c.eq(X.getTimeArray()[k], k * DT, w + ": state time");
        }
        // the law itself, mid-interval (zero-order hold)
        ct::core::StateVector<NX> xx;
        xx << 0.3, -0.7;
        for (size_t k = 0; k < u.size(); k++)
        {
            ct::core::ControlVector<NU> uu;
            p.computeControl(xx, (k + 0.5) * DT, uu);
            c.eq(uu(0), u[k] + L[k].dot(xx - x[k]), w + ": control law " + std::to_string(k));
        }
    }
};
