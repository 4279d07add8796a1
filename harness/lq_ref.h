// Dense reference for unconstrained time-varying LQ problems
//   min sum_k 1/2 x'Qx + qv'x + u'Px + 1/2 u'Ru + rv'u  + 1/2 xN'QNxN + qvN'xN,   x_{k+1} = A x + B u + b
#pragma once
#include <Eigen/Dense>
#include <vector>
struct LqStage
{
    Eigen::MatrixXd A, B, b, Q, qv, R, rv, P;
};
struct LqRef
{
    std::vector<LqStage> s;
    Eigen::MatrixXd QN, qvN;
    int nx() const { return QN.rows(); }
    int nu() const { return s[0].R.rows(); }
    // optimum of the tail problem that starts at stage k0 in state x0: stacked (u_k0 .. u_{K-1}), (x_k0 .. x_K)
    void solve(int k0, const Eigen::VectorXd& x0, std::vector<Eigen::VectorXd>& x, std::vector<Eigen::VectorXd>& u) const
    {
        int n = nx(), m = nu(), T = (int)s.size() - k0;
        // unknowns: u (T*m), x_{1..T} (T*n), multipliers (T*n)
        int nu_ = T * m, nx_ = T * n, N = nu_ + 2 * nx_;
        Eigen::MatrixXd M = Eigen::MatrixXd::Zero(N, N);
        Eigen::VectorXd r = Eigen::VectorXd::Zero(N);
        auto U = [&](int k) { return k * m; };
        auto X = [&](int k) { return nu_ + (k - 1) * n; };           // k = 1..T
        auto Lm = [&](int k) { return nu_ + nx_ + k * n; };          // constraint x_{k+1} = ..., k = 0..T-1
        for (int k = 0; k < T; k++)
        {
            const LqStage& t = s[k0 + k];
            M.block(U(k), U(k), m, m) = 0.5 * (t.R + t.R.transpose());
            r.segment(U(k), m) = -t.rv;
            if (k > 0)
            {
                M.block(X(k), X(k), n, n) = 0.5 * (t.Q + t.Q.transpose());
                M.block(U(k), X(k), m, n) = t.P;
                M.block(X(k), U(k), n, m) = t.P.transpose();
                r.segment(X(k), n) = -t.qv;
            }
            else
                r.segment(U(k), m) -= t.P * x0;
            // A x + B u - x+ = -b
            M.block(Lm(k), U(k), n, m) = t.B;
            M.block(U(k), Lm(k), m, n) = t.B.transpose();
            M.block(Lm(k), X(k + 1), n, n) = -Eigen::MatrixXd::Identity(n, n);
            M.block(X(k + 1), Lm(k), n, n) = -Eigen::MatrixXd::Identity(n, n);
            r.segment(Lm(k), n) = -t.b;
            if (k > 0)
            {
                M.block(Lm(k), X(k), n, n) = t.A;
                M.block(X(k), Lm(k), n, n) = t.A.transpose();
            }
            else
                r.segment(Lm(k), n) -= t.A * x0;
        }
        M.block(X(T), X(T), n, n) = 0.5 * (QN + QN.transpose());
        r.segment(X(T), n) = -qvN;
        Eigen::VectorXd z = M.fullPivLu().solve(r);
        x.assign(1, x0);
        u.clear();
        for (int k = 0; k < T; k++)
        {
            u.push_back(z.segment(U(k), m));
            x.push_back(z.segment(X(k + 1), n));
        }
    }
    // optimal affine law u = lv + L x of stage k
    void law(int k, Eigen::MatrixXd& L, Eigen::VectorXd& lv) const
    {
        std::vector<Eigen::VectorXd> x, u;
        int n = nx();
        solve(k, Eigen::VectorXd::Zero(n), x, u);
        lv = u[0];
        L.resize(nu(), n);
        for (int i = 0; i < n; i++)
        {
            solve(k, Eigen::VectorXd::Unit(n, i), x, u);
            L.col(i) = u[0] - lv;
        }
    }
    // value of the problem along given trajectories
    double cost(const std::vector<Eigen::VectorXd>& x, const std::vector<Eigen::VectorXd>& u) const
    {
        double J = 0;
        for (size_t k = 0; k < s.size(); k++)
        {
            const LqStage& t = s[k];
            J += 0.5 * x[k].dot(t.Q * x[k]) + t.qv.col(0).dot(x[k]) + u[k].dot(t.P * x[k]) + 0.5 * u[k].dot(t.R * u[k]) + t.rv.col(0).dot(u[k]);
        }
        return J + 0.5 * x.back().dot(QN * x.back()) + qvN.col(0).dot(x.back());
    }
};
