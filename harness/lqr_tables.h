// tables and stabilisability test shared by the P14 harnesses
#pragma once
#include <ct/optcon/optcon.h>
#include "mc.h"
#include "mc_file.h"
using namespace ct::optcon;
using MX = Eigen::MatrixXd;
using VX = Eigen::VectorXd;
typedef std::complex<double> cd;

static inline MX mat(int r, int c, std::initializer_list<double> v)
{
    MX m(r, c);
    auto it = v.begin();
    for (int i = 0; i < r; i++)
        for (int j = 0; j < c; j++)
            m(i, j) = *it++;
    return m;
}
// Hautus test: every eigenvalue outside the open stability region is controllable
static inline bool stabilisable(const MX& A, const MX& B, bool ct)
{
    Eigen::VectorXcd ev = A.eigenvalues();
    for (int i = 0; i < ev.size(); i++)
    {
        if (ct ? ev(i).real() < -1e-6 : std::abs(ev(i)) < 1 - 1e-6)
            continue;
        Eigen::MatrixXcd W(A.rows(), A.cols() + B.cols());
        W.leftCols(A.cols()) = ev(i) * Eigen::MatrixXcd::Identity(A.rows(), A.rows()) - A.cast<cd>();
        W.rightCols(B.cols()) = B.cast<cd>();
        Eigen::FullPivLU<Eigen::MatrixXcd> lu(W);
        lu.setThreshold(1e-6);
        if (lu.rank() < A.rows())
            return false;
    }
    return true;
}
static inline bool detectable(const MX& A, const MX& Q, bool ct) { return stabilisable(A.transpose(), Q.transpose(), ct); }

static inline std::vector<MX> tabA(int n)
{
    if (n == 1)
        return {mat(1, 1, {0}), mat(1, 1, {1.5}), mat(1, 1, {-0.5})};
    if (n == 3)
        return {mat(3, 3, {0, 1, 0, 0, 0, 1, 0, 0, 0}), mat(3, 3, {0.5, 1, 0, -1, 0.5, 0.25, 0, 0.5, -1}), mat(3, 3, {-1, 0, 0, 0, 0.5, 1, 0.25, -1, 0.5})};
    return {mat(2, 2, {0, 1, 0, 0}), mat(2, 2, {0, 1, -1, 0}), mat(2, 2, {1, 0.5, 0, -1}), mat(2, 2, {0.5, 1, -1, 0.5}), mat(2, 2, {-1, 1, 0, -1}),
        mat(2, 2, {-0.5, 0, 0.25, 2})};
}
static inline std::vector<MX> tabB(int n, int m)
{
    if (n == 1 && m == 1)
        return {mat(1, 1, {1}), mat(1, 1, {-2}), mat(1, 1, {0})};
    if (n == 1)
        return {mat(1, 2, {1, -1}), mat(1, 2, {0, 2})};
    if (n == 3)
        return {mat(3, 2, {0, 0, 1, 0, 0, 1}), mat(3, 2, {1, 0, 0.5, 1, 0, -1})};
    if (m == 1)
        return {mat(2, 1, {0, 1}), mat(2, 1, {1, -0.5}), mat(2, 1, {1, 0})};
    if (m == 2)
        return {mat(2, 2, {1, 0, 0, 1}), mat(2, 2, {0, 1, 1, 2}), mat(2, 2, {1, 1, 1, 1})};
    return {mat(2, 3, {1, 0, 1, 0, 1, 1}), mat(2, 3, {1, 1, 1, 0, 0.5, 0})};
}
static inline std::vector<MX> tabQ(int n)
{
    if (n == 1)
        return {mat(1, 1, {1}), mat(1, 1, {3}), mat(1, 1, {0})};
    if (n == 3)
        return {MX::Identity(3, 3), mat(3, 3, {2, 1, 0, 1, 3, -0.5, 0, -0.5, 1})};
    return {MX::Identity(2, 2), mat(2, 2, {2, 1, 1, 3}), mat(2, 2, {4, 0, 0, 0}), mat(2, 2, {1, -0.5, -0.5, 2})};
}
static inline std::vector<MX> tabR(int m)
{
    if (m == 1)
        return {mat(1, 1, {1}), mat(1, 1, {4})};
    if (m == 3)
        return {MX::Identity(3, 3), mat(3, 3, {2, 1, 1, 1, 2, 1, 1, 1, 2}), mat(3, 3, {1, 0, 0, 0, 2, 0, 0, 0, 1})};
    return {mat(2, 2, {2, 0, 0, 1}), mat(2, 2, {2, 0.5, 0.5, 1}), mat(2, 2, {3, -1, -1, 1})};
}
struct Sys
{
    MX A, B, Q, R;
};
static inline Sys pickSys(mc::Ctx& c, int n, int m) { return {c.pick(tabA(n)), c.pick(tabB(n, m)), c.pick(tabQ(n)), c.pick(tabR(m))}; }
static inline std::string show(const Sys& s)
{
    std::ostringstream o;
    Eigen::IOFormat f(4, Eigen::DontAlignCols, ",", ";", "", "", "[", "]");
    o << "A=" << s.A.format(f) << " B=" << s.B.format(f) << " Q=" << s.Q.format(f) << " R=" << s.R.format(f);
    return o.str();
}
