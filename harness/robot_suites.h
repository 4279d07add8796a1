// Reference model of a rigid-body tree and the suites of P29, shared by the robots.
#pragma once
#include <iit/rbd/rbd.h>
#include "mc.h"
#include "robots_data.h"

static M3 skew(const V3& a)
{
    M3 m;
    m << 0, -a(2), a(1), a(2), 0, -a(0), -a(1), a(0), 0;
    return m;
}
static M4 pose(const double* p)
{
    M4 t = M4::Identity();
    for (int i = 0; i < 12; i++)
        t(i / 4, i % 4) = p[i];
    return t;
}
static M4 rz(double q)
{
    M4 t = M4::Identity();
    t(0, 0) = t(1, 1) = std::cos(q);
    t(1, 0) = std::sin(q);
    t(0, 1) = -t(1, 0);
    return t;
}
// motion and force transforms of a homogeneous transform A_X_B
static M6 motOf(const M4& T)
{
    M3 E = T.topLeftCorner<3, 3>();
    V3 r = T.topRightCorner<3, 1>();
    M6 X;
    X << E, M3::Zero(), skew(r) * E, E;
    return X;
}
static M6 frcOf(const M4& T)
{
    M3 E = T.topLeftCorner<3, 3>();
    V3 r = T.topRightCorner<3, 1>();
    M6 X;
    X << E, skew(r) * E, M3::Zero(), E;
    return X;
}
static M6 crm(const V6& v)
{
    M6 X;
    X << skew(v.head<3>()), M3::Zero(), skew(v.tail<3>()), skew(v.head<3>());
    return X;
}

struct Tree
{
    std::vector<LinkData> l;
    std::vector<FrameData> fr;
    M6 baseI = M6::Zero();
    int n() const { return (int)l.size(); }
    M6 inertia(int i) const
    {
        const LinkData& d = l[i];
        V3 c(d.com[0], d.com[1], d.com[2]);
        M3 I;
        for (int k = 0; k < 9; k++)
            I(k / 3, k % 3) = d.I[k];
        M6 r;
        r << I, d.mass * skew(c), d.mass * skew(c).transpose(), d.mass * M3::Identity();
        return r;
    }
    std::vector<M4, Eigen::aligned_allocator<M4>> X, W;  // parent_X_link, base_X_link
    void setQ(const VX& q)
    {
        X.clear();
        W.clear();
        for (int i = 0; i < n(); i++)
        {
            X.push_back(M4(pose(l[i].pose) * rz(q(i))));
            W.push_back(l[i].parent < 0 ? X[i] : M4(W[l[i].parent] * X[i]));
        }
    }
    M4 frame(const std::string& name) const
    {
        for (const FrameData& f : fr)
            if (name == f.name)
                return f.link < 0 ? pose(f.pose) : M4(W[f.link] * pose(f.pose));
        throw mc::Failure{"unknown frame " + name};
    }
    int linkOf(const std::string& name) const
    {
        for (const FrameData& f : fr)
            if (name == f.name)
                return f.link;
        return -1;
    }
    bool above(int i, int k) const
    {  // joint i moves link k
        for (; k >= 0; k = l[k].parent)
            if (k == i)
                return true;
        return false;
    }
    struct Out
    {
        V6 wrench;
        VX tau;
        std::vector<V6, Eigen::aligned_allocator<V6>> v, a, f;
    };
    typedef std::vector<V6, Eigen::aligned_allocator<V6>> Ext;
    // Newton-Euler: base velocity v0, base acceleration minus gravity a0, external forces in link coordinates
    Out rnea(const VX& qd, const VX& qdd, const V6& v0, const V6& a0, const V6& ext0, const Ext& ext) const
    {
        Out o;
        o.tau = VX::Zero(n());
        o.v.resize(n());
        o.a.resize(n());
        o.f.resize(n());
        V6 S = V6::Unit(2);
        for (int i = 0; i < n(); i++)
        {
            M6 Xi = motOf(M4(X[i].inverse()));
            V6 vp = l[i].parent < 0 ? v0 : o.v[l[i].parent], ap = l[i].parent < 0 ? a0 : o.a[l[i].parent];
            o.v[i] = Xi * vp + S * qd(i);
            o.a[i] = Xi * ap + S * qdd(i) + crm(o.v[i]) * S * qd(i);
            M6 I = inertia(i);
            o.f[i] = I * o.a[i] - crm(o.v[i]).transpose() * I * o.v[i] - ext[i];
        }
        o.wrench = baseI * a0 - crm(v0).transpose() * baseI * v0 - ext0;
        for (int i = n() - 1; i >= 0; i--)
        {
            o.tau(i) = o.f[i](2);
            V6 fp = frcOf(X[i]) * o.f[i];
            if (l[i].parent < 0)
                o.wrench += fp;
            else
                o.f[l[i].parent] += fp;
        }
        return o;
    }
    Ext noExt() const { return Ext(n(), V6::Zero()); }
    MX massMatrix(bool floating) const
    {
        int b = floating ? 6 : 0;
        MX H(n() + b, n() + b);
        for (int k = 0; k < n() + b; k++)
        {
            V6 a0 = V6::Zero();
            VX qdd = VX::Zero(n());
            if (k < b)
                a0(k) = 1;
            else
                qdd(k - b) = 1;
            Out o = rnea(VX::Zero(n()), qdd, V6::Zero(), a0, V6::Zero(), noExt());
            if (b)
                H.col(k) << o.wrench, o.tau;
            else
                H.col(k) = o.tau;
        }
        return H;
    }
};
template <size_t A, size_t B>
static Tree makeTree(const LinkData (&l)[A], const FrameData (&f)[B])
{
    Tree t;
    t.l.assign(l, l + A);
    t.fr.assign(f, f + B);
    return t;
}

// joint configurations: `vals` values per joint; every entry of a transform is multilinear in (1, cos q_i, sin q_i), an
// entry of the mass matrix quadratic, so 3 and 5 values per joint leave no freedom.  Robots with identical branches use
// the same combination (shifted) in each branch.
static VX config(mc::Ctx& c, int n, int free, int vals)
{
    static const double V[5] = {0.4, -1.1, 2.3, 0.0, -2.7};
    VX q(n);
    std::vector<int> k(free);
    for (int i = 0; i < free; i++)
        k[i] = c.choose(vals);
    for (int i = 0; i < n; i++)
        q(i) = V[(k[i % free] + i / free) % vals] + 0.01 * (i / free);
    return q;
}

template <class R>
static void transforms(mc::Ctx& c, Tree t, int free, int vals)
{
    static R r;
    static auto H = r.hom();
    static auto M = r.mot();
    static auto F = r.frc();
    static auto J = r.jac();
    VX q = config(c, R::N, free, vals);
    t.setQ(q);
    typename R::JS js = q;
    c.eqI(H.size(), M.size(), "as many motion as homogeneous transforms");
    for (auto& x : H)
    {
        c.log() << x.a << "_X_" << x.b << "; ";
        M4 w = t.frame(x.a).inverse() * t.frame(x.b);
        c.eqM(x.f(js), w, ("homogeneous transform " + x.a + "_X_" + x.b).c_str(), 1e-9);
    }
    for (auto& x : M)
        c.eqM(x.f(js), motOf(M4(t.frame(x.a).inverse() * t.frame(x.b))), ("motion transform " + x.a + "_X_" + x.b).c_str(), 1e-9);
    for (auto& x : F)
        c.eqM(x.f(js), frcOf(M4(t.frame(x.a).inverse() * t.frame(x.b))), ("force transform " + x.a + "_X_" + x.b).c_str(), 1e-9);
    for (auto& x : J)
    {
        int k = t.linkOf(x.b);
        V3 p = t.frame(x.b).template topRightCorner<3, 1>();
        std::vector<int> on;
        for (int i = 0; i < t.n(); i++)
            if (t.above(i, k))
                on.push_back(i);
        MX w(6, on.size());
        for (size_t i = 0; i < on.size(); i++)
        {
            V3 z = t.W[on[i]].template block<3, 1>(0, 2), o = t.W[on[i]].template topRightCorner<3, 1>();
            w.col(i) << z, z.cross(p - o);
        }
        c.eqM(x.f(js), w, ("Jacobian " + x.a + "_J_" + x.b).c_str(), 1e-9);
    }
    c.step(H.size() + M.size() + F.size() + J.size());
    c.state(c.hist);
}

template <class R>
static void inertias(mc::Ctx& c, Tree t)
{
    R r;
    auto T = r.tensors();
    auto m = r.masses();
    auto s = r.coms();
    double sum = t.baseI(3, 3);
    for (int i = 0; i < t.n(); i++)
    {
        c.eqM(T[i], t.inertia(i), (std::string("inertia of ") + t.l[i].name).c_str(), 1e-12);
        c.eq(m[i], t.l[i].mass, "mass", 1e-12);
        c.eqM(s[i], V3(t.l[i].com[0], t.l[i].com[1], t.l[i].com[2]), "centre of mass", 1e-12);
        sum += t.l[i].mass;
        c.step();
    }
    c.eq(r.ip.getTotalMass(), sum, "total mass", 1e-9);
    c.state(c.hist);
}

// velocity / acceleration patterns
static VX pattern(int n, int k, double s)
{
    VX v = VX::Zero(n);
    if (k == 0)
        return v;
    for (int i = 0; i < n; i++)
        v(i) = s * (((i * 7 + k * 5) % 11) - 5) / 5.0;
    if (k == 1)
        for (int i = 0; i < n; i++)
            v(i) = i % 2 ? s : 0;
    return v;
}
static V6 pattern6(int k, double s)
{
    V6 v = V6::Zero();
    if (k)
        for (int i = 0; i < 6; i++)
            v(i) = s * (((i * 5 + k * 3) % 7) - 3) / 3.0;
    return v;
}

// one robot with its engines, followed by a model of what it has been told
template <class R>
struct Driver
{
    mc::Ctx& c;
    R& r;
    Tree& t;
    VX cur;  // configuration of the shared motion transforms
    double tol = 1e-9;
    typedef typename R::JS JS;
    Driver(mc::Ctx& c, R& r, Tree& t) : c(c), r(r), t(t) { cur = VX::Zero(R::N); }
    void extOf(int k, typename R::Ext& e, V6& e0, Tree::Ext& el)
    {
        el = t.noExt();
        e0 = pattern6(k, 3);
        for (int i = 0; i < t.n(); i++)
            el[i] = k ? pattern6(k + i, 2 + i) : V6::Zero();
        e[(typename R::LinkId)0] = e0;
        for (int i = 0; i < t.n(); i++)
            e[(typename R::LinkId)(i + 1)] = el[i];
    }
    void motionsEqual(const Tree::Out& o)
    {
        auto m = r.motions();
        for (int i = 0; i < t.n(); i++)
        {
            c.eqM(m[i].v, o.v[i], "velocity of a link", tol);
            c.eqM(m[i].a, o.a[i], "acceleration of a link", tol);
            c.eqM(m[i].f, o.f[i], "force on a link", tol);
        }
    }
    void jsim(const VX& q, bool floating)
    {
        t.setQ(q);
        MX H = t.massMatrix(floating);
        c.eqM(MX(r.js(JS(q))), H, "joint space inertia matrix", tol);
        r.js.computeL();
        MX L = r.js.getL();
        c.eqM(MX(L.template triangularView<Eigen::StrictlyUpper>()), MX(MX::Zero(H.rows(), H.cols())), "L is lower triangular", 0);
        r.js.computeInverse();
        MX inv = r.js.getInverse();
        if (floating && (L.transpose() * L - H).norm() > 1e-6 * H.norm() && c.known("floating-jsim-factors"))
            return;
        factors(H, L, inv);
        c.step(3);
    }
    void factors(const MX& H, const MX& L, const MX& inv)
    {
        c.eqM(MX(L.transpose() * L), H, "L^T L", tol);
        c.eqM(MX(inv * H), MX(MX::Identity(H.rows(), H.cols())), "inverse of the inertia matrix", 1e-7);
    }
};

static const V6 GRAV_UP = 9.81 * V6::Unit(5);

template <class R>
static void fixedId(Driver<R>& d, const VX& q, bool withQ, const VX& qd, const VX& qdd, int ext)
{
    typename R::Ext e;
    V6 e0;
    Tree::Ext el;
    d.extOf(ext, e, e0, el);
    typename R::JS tau, q_ = q, qd_ = qd, qdd_ = qdd;
    tau.setConstant(99);
    if (withQ)
        d.cur = q;
    d.t.setQ(d.cur);
    if (withQ && ext)
        d.r.id.id(tau, q_, qd_, qdd_, e);
    else if (withQ)
        d.r.id.id(tau, q_, qd_, qdd_);
    else if (ext)
        d.r.id.id(tau, qd_, qdd_, e);
    else
        d.r.id.id(tau, qd_, qdd_);
    Tree::Out o = d.t.rnea(qd, qdd, V6::Zero(), GRAV_UP, V6::Zero(), el);
    d.c.eqM(tau, o.tau, "inverse dynamics", d.tol);
    d.motionsEqual(o);
    d.c.step();
}
template <class R>
static void fixedFd(Driver<R>& d, const VX& q, bool withQ, const VX& qd, const VX& tau, int ext)
{
    typename R::Ext e;
    V6 e0;
    Tree::Ext el;
    d.extOf(ext, e, e0, el);
    typename R::JS qdd, q_ = q, qd_ = qd, tau_ = tau;
    qdd.setConstant(99);
    if (withQ)
        d.cur = q;
    d.t.setQ(d.cur);
    if (withQ && ext)
        d.r.fd.fd(qdd, q_, qd_, tau_, e);
    else if (withQ)
        d.r.fd.fd(qdd, q_, qd_, tau_);
    else if (ext)
        d.r.fd.fd(qdd, qd_, tau_, e);
    else
        d.r.fd.fd(qdd, qd_, tau_);
    VX bias = d.t.rnea(qd, VX::Zero(R::N), V6::Zero(), GRAV_UP, V6::Zero(), el).tau;
    MX H = d.t.massMatrix(false);
    VX want = H.ldlt().solve(tau - bias);
    d.c.eqM(qdd, want, "forward dynamics", 1e-7);
    d.c.step();
}
template <class R>
static void fixedTerms(Driver<R>& d, bool gravity, const VX& q, bool withQ, const VX& qd)
{
    typename R::JS f, q_ = q, qd_ = qd;
    f.setConstant(99);
    if (withQ)
        d.cur = q;
    d.t.setQ(d.cur);
    VX z = VX::Zero(R::N);
    if (gravity)
    {
        if (withQ)
            d.r.id.G_terms(f, q_);
        else
            d.r.id.G_terms(f);
        d.c.eqM(f, d.t.rnea(z, z, V6::Zero(), GRAV_UP, V6::Zero(), d.t.noExt()).tau, "gravity terms", d.tol);
    }
    else
    {
        if (withQ)
            d.r.id.C_terms(f, q_, qd_);
        else
            d.r.id.C_terms(f, qd_);
        d.c.eqM(f, d.t.rnea(qd, z, V6::Zero(), V6::Zero(), V6::Zero(), d.t.noExt()).tau, "Coriolis terms", d.tol);
    }
    d.c.step();
}

template <class R>
static void fixedGrid(mc::Ctx& c, Tree t, int free, int vals, int npat)
{
    static R r;
    VX q = config(c, R::N, free, vals);
    Driver<R> d(c, r, t);
    d.jsim(q, false);
    for (int k = 0; k < npat; k++)
    {
        VX qd = pattern(R::N, k, 2), b = pattern(R::N, k + 3, 5);
        fixedId(d, q, true, qd, b, 0);
        fixedId(d, q, true, b, qd, k + 1);
        fixedFd(d, q, true, qd, b, 0);
        fixedFd(d, q, true, b, qd, k + 1);
        fixedTerms(d, false, q, true, qd);
    }
    fixedTerms(d, true, q, true, q);
    c.state(c.hist);
}
template <class R>
static void fixedHistory(mc::Ctx& c, Tree t, int depth)
{
    R r;
    Driver<R> d(c, r, t);
    VX Q[2] = {pattern(R::N, 4, 1.2), pattern(R::N, 7, -2)};
    VX A = pattern(R::N, 2, 1.5), B = pattern(R::N, 6, 4), Z = VX::Zero(R::N);
    bool set = false;
    for (int k = 0; k < depth; k++)
    {
        int op = c.choose(11), qi = 0;
        bool needsQ = op != 1 && op != 3 && op != 5 && op != 7;
        if (needsQ)
            qi = c.choose(2);
        if (!needsQ && !set)
            c.prune();
        const VX& q = Q[qi];
        c.log() << "op " << op << " q" << qi << "; ";
        switch (op)
        {
            case 0: fixedId(d, q, true, A, B, qi); break;
            case 1: fixedId(d, Z, false, B, A, 2); break;
            case 2: fixedFd(d, q, true, B, A, qi); break;
            case 3: fixedFd(d, Z, false, A, B, 0); break;
            case 4: fixedTerms(d, true, q, true, Z); break;
            case 5: fixedTerms(d, true, Z, false, Z); break;
            case 6: fixedTerms(d, false, q, true, A); break;
            case 7: fixedTerms(d, false, Z, false, B); break;
            case 8: r.id.setJointStatus(q); d.cur = q; break;
            case 9: r.fd.setJointStatus(q); d.cur = q; break;
            default: d.jsim(q, false); break;
        }
        set |= needsQ && op != 10;
        c.state(c.hist);
    }
}

// floating base
template <class R>
struct FloatCase
{
    VX q, qd, x;      // x: joint accelerations or forces
    V6 v0, g, a0;     // base velocity, gravity, base acceleration
    int ext;
};
template <class R>
static void floatId(Driver<R>& d, const FloatCase<R>& k, bool withQ)
{
    typename R::Ext e;
    V6 e0;
    Tree::Ext el;
    d.extOf(k.ext, e, e0, el);
    typename R::JS tau, q = k.q, qd = k.qd, qdd = k.x;
    tau.setConstant(99);
    V6 ba;
    ba.setConstant(99);
    if (withQ)
        d.cur = k.q;
    d.t.setQ(d.cur);
    if (withQ && k.ext)
        d.r.id.id(tau, ba, k.g, k.v0, q, qd, qdd, e);
    else if (withQ)
        d.r.id.id(tau, ba, k.g, k.v0, q, qd, qdd);
    else if (k.ext)
        d.r.id.id(tau, ba, k.g, k.v0, qd, qdd, e);
    else
        d.r.id.id(tau, ba, k.g, k.v0, qd, qdd);
    // the base moves such that no force has to act on it
    Tree::Out o = d.t.rnea(k.qd, k.x, k.v0, V6::Zero(), e0, el);
    M6 Ic = d.t.massMatrix(true).template topLeftCorner<6, 6>();
    V6 a = -Ic.ldlt().solve(o.wrench);
    o = d.t.rnea(k.qd, k.x, k.v0, a, e0, el);
    d.c.eqM(ba, V6(a + k.g), "base acceleration of the inverse dynamics", 1e-8);
    d.c.eqM(tau, o.tau, "inverse dynamics", 1e-8);
    auto m = d.r.motions();
    for (int i = 0; i < d.t.n(); i++)
        d.c.eqM(m[i].v, o.v[i], "velocity of a link", d.tol);
    d.c.step();
}
template <class R>
static void floatFull(Driver<R>& d, const FloatCase<R>& k, bool withQ)
{
    typename R::Ext e;
    V6 e0;
    Tree::Ext el;
    d.extOf(k.ext, e, e0, el);
    typename R::JS tau, q = k.q, qd = k.qd, qdd = k.x;
    tau.setConstant(99);
    V6 w;
    w.setConstant(99);
    if (withQ)
        d.cur = k.q;
    d.t.setQ(d.cur);
    if (withQ && k.ext)
        d.r.id.id_fully_actuated(w, tau, k.g, k.v0, k.a0, q, qd, qdd, e);
    else if (withQ)
        d.r.id.id_fully_actuated(w, tau, k.g, k.v0, k.a0, q, qd, qdd);
    else if (k.ext)
        d.r.id.id_fully_actuated(w, tau, k.g, k.v0, k.a0, qd, qdd, e);
    else
        d.r.id.id_fully_actuated(w, tau, k.g, k.v0, k.a0, qd, qdd);
    Tree::Out o = d.t.rnea(k.qd, k.x, k.v0, V6(k.a0 - k.g), e0, el);
    d.c.eqM(w, o.wrench, "base wrench", d.tol);
    d.c.eqM(tau, o.tau, "inverse dynamics with an actuated base", d.tol);
    d.motionsEqual(o);
    d.c.step();
}
template <class R>
static void floatFd(Driver<R>& d, const FloatCase<R>& k, bool withQ)
{
    typename R::Ext e;
    V6 e0;
    Tree::Ext el;
    d.extOf(k.ext, e, e0, el);
    typename R::JS qdd, q = k.q, qd = k.qd, tau = k.x;
    qdd.setConstant(99);
    V6 ba;
    ba.setConstant(99);
    if (withQ)
        d.cur = k.q;
    d.t.setQ(d.cur);
    if (withQ && k.ext)
        d.r.fd.fd(qdd, ba, k.v0, k.g, q, qd, tau, e);
    else if (withQ)
        d.r.fd.fd(qdd, ba, k.v0, k.g, q, qd, tau);
    else if (k.ext)
        d.r.fd.fd(qdd, ba, k.v0, k.g, qd, tau, e);
    else
        d.r.fd.fd(qdd, ba, k.v0, k.g, qd, tau);
    int n = R::N;
    Tree::Out o = d.t.rnea(k.qd, VX::Zero(n), k.v0, V6::Zero(), e0, el);
    VX rhs(6 + n);
    rhs << -o.wrench, k.x - o.tau;
    VX s = d.t.massMatrix(true).ldlt().solve(rhs);
    d.c.eqM(ba, V6(s.head<6>() + k.g), "base acceleration of the forward dynamics", 1e-7);
    d.c.eqM(qdd, VX(s.tail(n)), "forward dynamics", 1e-7);
    d.c.step();
}
template <class R>
static void floatTerms(Driver<R>& d, bool gravity, const FloatCase<R>& k, bool withQ)
{
    typename R::JS f, q = k.q, qd = k.qd;
    f.setConstant(99);
    V6 w;
    w.setConstant(99);
    if (withQ)
        d.cur = k.q;
    d.t.setQ(d.cur);
    VX z = VX::Zero(R::N);
    Tree::Out o;
    if (gravity)
    {
        if (withQ)
            d.r.id.G_terms_fully_actuated(w, f, k.g, q);
        else
            d.r.id.G_terms_fully_actuated(w, f, k.g);
        o = d.t.rnea(z, z, V6::Zero(), V6(-k.g), V6::Zero(), d.t.noExt());
    }
    else
    {
        if (withQ)
            d.r.id.C_terms_fully_actuated(w, f, k.v0, q, qd);
        else
            d.r.id.C_terms_fully_actuated(w, f, k.v0, qd);
        o = d.t.rnea(k.qd, z, k.v0, V6::Zero(), V6::Zero(), d.t.noExt());
    }
    d.c.eqM(f, o.tau, gravity ? "gravity terms" : "Coriolis terms", d.tol);
    d.c.eqM(w, o.wrench, gravity ? "base wrench of gravity" : "base wrench of the velocities", d.tol);
    d.c.step();
}
template <class R>
static void floatJsim(Driver<R>& d, const VX& q)
{
    d.jsim(q, true);
    MX H = d.t.massMatrix(true);
    d.c.eqM(MX(d.r.js.getWholeBodyInertia()), MX(H.template topLeftCorner<6, 6>()), "inertia of the whole robot", d.tol);
    d.c.eqM(MX(d.r.js.getF()), MX(H.topRightCorner(6, R::N)), "base coupling block", d.tol);
    d.c.eqM(MX(d.r.js.getFixedBaseBlock()), MX(H.bottomRightCorner(R::N, R::N)), "joint block", d.tol);
}
template <class R>
static FloatCase<R> floatCase(const VX& q, int k)
{
    FloatCase<R> f;
    f.q = q;
    f.qd = pattern(R::N, k, 2);
    f.x = pattern(R::N, k + 3, 5);
    f.v0 = pattern6(k, 1.5);
    f.a0 = pattern6(k + 2, 3);
    f.g = V6::Zero();
    f.g.template tail<3>() = (k % 3 == 0 ? V3(0, 0, -9.81) : V3(3, -4, -8));
    f.ext = k % 2 ? k : 0;
    return f;
}
template <class R>
static void floatGrid(mc::Ctx& c, Tree t, int free, int vals, int npat)
{
    static R r;
    VX q = config(c, R::N, free, vals);
    Driver<R> d(c, r, t);
    floatJsim(d, q);
    for (int k = 0; k < npat; k++)
    {
        FloatCase<R> f = floatCase<R>(q, k);
        floatId(d, f, true);
        floatFull(d, f, true);
        floatFd(d, f, true);
        floatTerms(d, false, f, true);
        floatTerms(d, true, f, true);
    }
    c.state(c.hist);
}
template <class R>
static void floatHistory(mc::Ctx& c, Tree t, int depth)
{
    R r;
    Driver<R> d(c, r, t);
    VX Q[2] = {pattern(R::N, 4, 1.2), pattern(R::N, 7, -2)};
    bool set = false;
    for (int k = 0; k < depth; k++)
    {
        int op = c.choose(13), qi = 0;
        bool needsQ = op < 5 || op >= 10;
        if (needsQ)
            qi = c.choose(2);
        if (!needsQ && !set)
            c.prune();
        FloatCase<R> f = floatCase<R>(Q[qi], 3 + op % 5 + qi);
        c.log() << "op " << op << " q" << qi << "; ";
        switch (op)
        {
            case 0: floatId(d, f, true); break;
            case 1: floatFull(d, f, true); break;
            case 2: floatFd(d, f, true); break;
            case 3: floatTerms(d, true, f, true); break;
            case 4: floatTerms(d, false, f, true); break;
            case 5: floatId(d, f, false); break;
            case 6: floatFull(d, f, false); break;
            case 7: floatFd(d, f, false); break;
            case 8: floatTerms(d, true, f, false); break;
            case 9: floatTerms(d, false, f, false); break;
            case 10: r.id.setJointStatus(f.q); d.cur = f.q; break;
            case 11: r.fd.setJointStatus(f.q); d.cur = f.q; break;
            default: floatJsim(d, f.q);
        }
        set |= needsQ && op != 12;
        c.state(c.hist);
    }
}
