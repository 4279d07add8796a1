// Reference semantics of the cost terms (second-order jets) and factories for the real terms, shared by P10/P07.
#pragma once
#include <ct/optcon/optcon.h>
#include "mc.h"
#include "mc_file.h"
using namespace ct::core;
using namespace ct::optcon;
static const int NX = 3, NU = 2, NZ = NX + NU;
typedef StateVector<NX> XV;
typedef ControlVector<NU> UV;
typedef Eigen::Matrix<double, NX, NX> XX;
typedef Eigen::Matrix<double, NU, NU> UU;
typedef Eigen::Matrix<double, NU, NX> UX;

static XV vx(double a, double b, double c)
{
    XV v;
    v << a, b, c;
    return v;
}
static UV vu(double a, double b)
{
    UV v;
    v << a, b;
    return v;
}

// value, gradient, Hessian of an expression in (x, u)
struct Jet
{
    double v = 0;
    Eigen::Matrix<double, NZ, 1> g = Eigen::Matrix<double, NZ, 1>::Zero();
    Eigen::Matrix<double, NZ, NZ> h = Eigen::Matrix<double, NZ, NZ>::Zero();
    Jet(double d = 0) : v(d) {}
    static Jet var(double d, int i)
    {
        Jet j(d);
        j.g(i) = 1;
        return j;
    }
};
static Jet operator+(Jet a, const Jet& b)
{
    a.v += b.v, a.g += b.g, a.h += b.h;
    return a;
}
static Jet operator-(Jet a, const Jet& b)
{
    a.v -= b.v, a.g -= b.g, a.h -= b.h;
    return a;
}
static Jet operator*(const Jet& a, const Jet& b)
{
    Jet r(a.v * b.v);
    r.g = a.v * b.g + b.v * a.g;
    r.h = a.v * b.h + b.v * a.h + a.g * b.g.transpose() + b.g * a.g.transpose();
    return r;
}
static Jet chain(const Jet& a, double f, double f1, double f2)
{
    Jet r(f);
    r.g = f1 * a.g;
    r.h = f1 * a.h + f2 * a.g * a.g.transpose();
    return r;
}
static Jet jsqrt(const Jet& a)
{
    double s = std::sqrt(a.v);
    return chain(a, s, 0.5 / s, -0.25 / (s * s * s));
}
static Jet jexp(const Jet& a)
{
    double e = std::exp(a.v);
    return chain(a, e, e, e);
}

enum Kind
{
    LINEAR,
    QUADRATIC,
    MIXED,
    QUADMULT,
    SMOOTHABS,
    BARRIER,
    TRACKING,
    NKIND
};
static const char* kindName[] = {"linear", "quadratic", "mixed", "quadratic-multiplicative", "smooth-abs", "barrier", "tracking"};

struct ActM  // activation model
{
    int kind = 0;  // 0 none, 1 single [0.5,2), 2 linear ramp, 3 rbf, 4 periodic
    bool active(double t) const
    {
        if (kind == 1)
            return t >= 0.5 && t < 2;
        if (kind == 2)
            return t >= 0.25 && t < 3;
        if (kind == 4)
            return t >= 0 && std::fmod(t, 1.0) < 0.5;
        return true;
    }
    double val(double t) const
    {
        if (kind == 2)
            return 0.5 + 2.0 * (t - 0.25);
        if (kind == 3)
            return std::exp(-0.5 * (t - 1) * (t - 1) / 0.25) / (0.5 * std::sqrt(2 * M_PI));
        return 1;
    }
    std::shared_ptr<ct::core::tpl::ActivationBase<double>> make() const
    {
        switch (kind)
        {
            case 1: return std::make_shared<SingleActivation>(0.5, 2.0);
            case 2: return std::make_shared<LinearActivation>(0.25, 3.0, 2.0, 0.5);
            case 3: return std::make_shared<RBFGaussActivation>(1.0, 0.5);
            case 4: return std::make_shared<PeriodicActivation>(0.5, 1.0, 0.0, 0.0);
        }
        return std::make_shared<ct::core::tpl::ActivationBase<double>>();
    }
    std::string file() const
    {
        switch (kind)
        {
            case 1: return " time_activation\n {\n kind single\n t_on 0.5\n t_off 2\n }\n";
            case 2: return " time_activation\n {\n kind linear\n t_on 0.25\n t_off 3\n slope 2\n startVal 0.5\n }\n";
            case 3: return " time_activation\n {\n kind RBF\n mu 1\n sigma 0.5\n }\n";
            case 4: return " time_activation\n {\n kind periodic\n active_percentage 0.5\n period 1\n activation_offset 0\n period_offset 0\n t_end 1000\n }\n";
        }
        return "";
    }
};

struct TermM  // one term of the model
{
    int kind;
    XX Q;
    UU R;
    UX P;
    XV xr, a, lb, ub;
    UV ur, b;
    double cst = 0, alpha = 0.5;
    int track = 0;  // control trajectory tracked
    ActM act;
    StateTrajectory<NX> xt;
    ControlTrajectory<NU> ut;

    TermM(int k, int var) : kind(k)
    {
        double s = var ? -0.5 : 1.0;
        for (int i = 0; i < NX; i++)
            for (int j = 0; j < NX; j++)
                Q(i, j) = s * (1 + i + 3 * j + (i == j ? 4 : 0)) * 0.25;
        for (int i = 0; i < NU; i++)
            for (int j = 0; j < NU; j++)
                R(i, j) = s * (2 + 2 * i - j + (i == j ? 1 : 0)) * 0.5;
        for (int i = 0; i < NU; i++)
            for (int j = 0; j < NX; j++)
                P(i, j) = s * (1 + i - 0.5 * j) + (var ? 1 : 0);
        xr << 0.5 * s, -1, 2 * s;
        ur << -0.25, 0.75 * s;
        a << 1, -2 * s, 0.5;
        b << 3 * s, -1;
        cst = 1.5 * s;
        ub << 1, 2 * s, 3;
        lb << -1, -2, -0.5;
        xt.setInterpolationType(LIN);
        ut.setInterpolationType(ZOH);
        xt.push_back(xr, 0.0, true);
        xt.push_back(XV(2 * a), 1.0, true);
        xt.push_back(lb, 2.5, true);
        ut.push_back(ur, 0.0, true);
        ut.push_back(b, 1.5, true);
        track = var;
    }
    // reference trajectories evaluated independently
    XV xtAt(double t) const
    {
        std::vector<double> ts{0.0, 1.0, 2.5};
        std::vector<XV> vs{xt0, xt1, xt2};
        if (t <= 0)
            return vs[0];
        if (t >= 2.5)
            return vs[2];
        int i = t < 1 ? 0 : 1;
        double w = (t - ts[i]) / (ts[i + 1] - ts[i]);
        return XV(vs[i] + w * (vs[i + 1] - vs[i]));
    }
    UV utAt(double t) const { return t >= 1.5 ? ut1 : ut0; }
    XV xt0, xt1, xt2;
    UV ut0, ut1;
    void latch()
    {
        xt0 = xr, xt1 = XV(2 * a), xt2 = lb, ut0 = ur, ut1 = b;
    }
    Jet value(const XV& x, const UV& u, double t) const
    {
        Jet X[NX], U[NU];
        for (int i = 0; i < NX; i++)
            X[i] = Jet::var(x(i), i);
        for (int i = 0; i < NU; i++)
            U[i] = Jet::var(u(i), NX + i);
        XV r = kind == TRACKING ? xtAt(t) : xr;
        UV w = kind == TRACKING ? (track ? utAt(t) : UV(UV::Zero())) : ur;
        Jet q, s, o;
        for (int i = 0; i < NX; i++)
            for (int j = 0; j < NX; j++)
                q = q + (X[i] - Jet(r(i))) * Jet(Q(i, j)) * (X[j] - Jet(r(j)));
        for (int i = 0; i < NU; i++)
            for (int j = 0; j < NU; j++)
                s = s + (U[i] - Jet(w(i))) * Jet(R(i, j)) * (U[j] - Jet(w(j)));
        switch (kind)
        {
            case LINEAR:
                o = Jet(cst);
                for (int i = 0; i < NX; i++)
                    o = o + Jet(a(i)) * X[i];
                for (int i = 0; i < NU; i++)
                    o = o + Jet(b(i)) * U[i];
                return o;
            case QUADRATIC:
            case TRACKING: return q + s;
            case QUADMULT: return q * s;
            case MIXED:
                for (int i = 0; i < NU; i++)
                    for (int j = 0; j < NX; j++)
                        o = o + (U[i] - Jet(w(i))) * Jet(P(i, j)) * (X[j] - Jet(r(j)));
                return o;
            case SMOOTHABS:
                for (int i = 0; i < NX; i++)
                    o = o + Jet(a(i)) * jsqrt((X[i] - Jet(r(i))) * (X[i] - Jet(r(i))) + Jet(alpha * alpha));
                for (int i = 0; i < NU; i++)
                    o = o + Jet(b(i)) * jsqrt((U[i] - Jet(w(i))) * (U[i] - Jet(w(i))) + Jet(alpha * alpha));
                return o;
            default:
                for (int i = 0; i < NX; i++)
                    o = o + jexp(Jet(0.5 + 0.5 * i) * (X[i] - Jet(ub(i)))) + jexp(Jet(0.5 + 0.5 * i) * (Jet(lb(i)) - X[i]));
                return o;
        }
    }
    bool usesXRef() const { return kind == QUADRATIC || kind == MIXED || kind == QUADMULT || kind == SMOOTHABS; }
    std::shared_ptr<TermBase<NX, NU>> make()
    {
        std::shared_ptr<TermBase<NX, NU>> t;
        switch (kind)
        {
            case LINEAR: t = std::make_shared<TermLinear<NX, NU>>(a, b, cst); break;
            case QUADRATIC: t = std::make_shared<TermQuadratic<NX, NU>>(Q, R, xr, ur); break;
            case MIXED: t = std::make_shared<TermMixed<NX, NU>>(P, xr, ur); break;
            case QUADMULT: t = std::make_shared<TermQuadMult<NX, NU>>(Q, R, xr, ur); break;
            case SMOOTHABS: t = std::make_shared<TermSmoothAbs<NX, NU>>(a, xr, b, ur, alpha); break;
            case BARRIER: t = std::make_shared<TermStateBarrier<NX, NU>>(ub, lb, vx(0.5, 1.0, 1.5)); break;
            default:
            {
                latch();
                auto q = std::make_shared<TermQuadTracking<NX, NU>>(Q, R, LIN, ZOH, track != 0);
                q->setStateAndControlReference(xt, ut);
                t = q;
            }
        }
        if (act.kind)
            t->setTimeActivation(act.make(), false);
        return t;
    }
    // change the weights of the model and of the real term alike; false if the kind has no such setter
    bool reweight(TermBase<NX, NU>& t)
    {
        Q = XX(Q.transpose() * 2), R = UU(R.transpose() * 0.5), P *= -1.5;
        switch (kind)
        {
            case QUADRATIC: static_cast<TermQuadratic<NX, NU>&>(t).setWeights(Q, R); return true;
            case TRACKING: static_cast<TermQuadTracking<NX, NU>&>(t).setWeights(Q, R); return true;
            case QUADMULT: static_cast<TermQuadMult<NX, NU>&>(t).setWeights(Q, R); return true;
            case MIXED: static_cast<TermMixed<NX, NU>&>(t).setWeights(P); return true;
        }
        return false;
    }
};

struct Pt
{
    XV x;
    UV u;
    double t;
};
static std::vector<Pt> pts()
{
    std::vector<Pt> v(4);
    v[0].x = vx(0, 0, 0), v[0].u = vu(0, 0), v[0].t = 0;
    v[1].x = vx(1, -2, 0.5), v[1].u = vu(0.5, -1), v[1].t = 0.75;
    v[2].x = vx(-0.5, 3, 1.25), v[2].u = vu(-2, 0.25), v[2].t = 1.5;
    v[3].x = vx(2, 0.1, -1), v[3].u = vu(1, 1), v[3].t = 3.25;
    return v;
}

struct CostM
{
    std::vector<TermM> inter, fin;
    Pt cur = {XV(XV::Zero()), UV(UV::Zero()), 0};
    double shift = 0;
    static Jet sum(const std::vector<TermM>& v, const Pt& p, bool useAct)
    {
        Jet s;
        for (auto& t : v)
        {
            if (useAct && !t.act.active(p.t))
                continue;
            s = s + Jet(useAct ? t.act.val(p.t) : 1.0) * t.value(p.x, p.u, p.t);
        }
        return s;
    }
    bool needsThrow(const std::vector<TermM>& v, bool useAct) const
    {
        for (auto& t : v)
            if (t.kind == BARRIER && !(useAct && !t.act.active(cur.t)))
                return true;
        return false;
    }
};

template <class F, class M>
static void derivEq(mc::Ctx& c, F f, const M& want, bool mayThrow, const char* what)
{
    M got;
    try
    {
        got = f();
    } catch (mc::EigenAssertion&)
    {
        throw;
    } catch (std::exception& e)
    {
        if (!mayThrow)
            c.fail(std::string(what) + " threw: " + e.what());
        return;
    }
    c.eqM(got, want, what, 1e-8);
}

template <class COST>
static void compareCost(mc::Ctx& c, COST& f, const CostM& m)
{
    c.step();
    XV x;
    UV u;
    double t;
    Eigen::Matrix<double, NX, 1> xg;
    Eigen::Matrix<double, NU, 1> ug;
    f.getCurrentStateAndControl(xg, ug, t);
    c.eqM(xg, m.cur.x, "current state", 0);
    c.eqM(ug, m.cur.u, "current control", 0);
    c.eq(t, m.cur.t, "current time", 1e-12);
    for (int fin = 0; fin < 2; fin++)
    {
        auto& v = fin ? m.fin : m.inter;
        Jet j = CostM::sum(v, m.cur, !fin);
        bool mt = m.needsThrow(v, !fin);
        XV gx = j.g.head<NX>();
        UV gu = j.g.tail<NU>();
        XX hx = j.h.topLeftCorner<NX, NX>();
        UU hu = j.h.bottomRightCorner<NU, NU>();
        UX hux = j.h.bottomLeftCorner<NU, NX>();
        if (fin)
        {
            c.eq(f.evaluateTerminal(), j.v, "terminal cost", 1e-9);
            derivEq(c, [&]() { return XV(f.stateDerivativeTerminal()); }, gx, mt, "terminal state derivative");
            derivEq(c, [&]() { return XX(f.stateSecondDerivativeTerminal()); }, hx, mt, "terminal state Hessian");
            derivEq(c, [&]() { return UV(f.controlDerivativeTerminal()); }, gu, mt, "terminal control derivative");
            derivEq(c, [&]() { return UU(f.controlSecondDerivativeTerminal()); }, hu, mt, "terminal control Hessian");
            derivEq(c, [&]() { return UX(f.stateControlDerivativeTerminal()); }, hux, mt, "terminal mixed derivative");
        }
        else
        {
            c.eq(f.evaluateIntermediate(), j.v, "intermediate cost", 1e-9);
            derivEq(c, [&]() { return XV(f.stateDerivativeIntermediate()); }, gx, mt, "intermediate state derivative");
            derivEq(c, [&]() { return XX(f.stateSecondDerivativeIntermediate()); }, hx, mt, "intermediate state Hessian");
            derivEq(c, [&]() { return UV(f.controlDerivativeIntermediate()); }, gu, mt, "intermediate control derivative");
            derivEq(c, [&]() { return UU(f.controlSecondDerivativeIntermediate()); }, hu, mt, "intermediate control Hessian");
            derivEq(c, [&]() { return UX(f.stateControlDerivativeIntermediate()); }, hux, mt, "intermediate mixed derivative");
        }
    }
}
