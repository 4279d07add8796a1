// Suites of P15, shared by the continuous-time and the discrete-time instantiation
#pragma once
#include "mc.h"
#include "mc_file.h"
#include "nloc_ref.h"
using namespace nloc;
template <size_t NX, size_t NU, bool CONT>
struct Rig
{
    typedef Make<NX, NU, CONT> M;
    typedef ct::optcon::NLOptConSolver<NX, NU, NX / 2, NX / 2, double, CONT> Solver;
    mc::Ctx& c;
    Ref r;
    std::unique_ptr<Solver> s;
    mc::Quiet quiet;
    Rig(mc::Ctx& cc) : c(cc) { r.p.nx = NX; r.p.nu = NU; }
    void build(const VX& x0)
    {
        s.reset(new Solver(M::problem(r.p, r.K, x0), settings(r)));
        c.eqI((int)s->getBackend()->getNumSteps(), r.K, "number of stages");
    }
    void guess(int kind, const VX& x0, int extra = 0)
    {
        VA x, u;
        MA L;
        makeGuess(kind, NX, NU, r.K + extra, x0, x, u, L);
        s->setInitialGuess(policy<NX, NU>(x, u, L, r.p.dt));
        r.guess(x, u, L);
    }
    void compare(const char* what)
    {
        auto pol = s->getSolution();
        std::string w(what);
        c.eqI((int)pol.x_ref().size(), r.K + 1, w + ": states");
        c.eqI((int)pol.uff().size(), r.K, w + ": controls");
        c.eqI((int)pol.K().size(), r.K, w + ": gains");
        auto st = s->getStateTrajectory();
        auto ct_ = s->getControlTrajectory();
        c.eqI((int)st.size(), r.K + 1, w + ": state trajectory");
        c.eqI((int)ct_.size(), r.K, w + ": control trajectory");
        c.eqI((int)s->getTimeArray().size(), r.K + 1, w + ": time array");
        c.eq(s->getTimeHorizon(), r.K * r.p.dt, w + ": horizon", 1e-12);
        const double tol = 2e-7;
        for (int k = 0; k <= r.K; k++)
        {
            std::string ws = w + " k=" + std::to_string(k);
            c.eqM(pol.x_ref()[k], r.x[k], ws + ": x", tol);
            c.eqM(st[k], r.x[k], ws + ": x (trajectory)", tol);
            c.eq(s->getTimeArray()[k], k * r.p.dt, ws + ": time", 1e-12);
            c.eq(st.getTimeFromIndex(k), k * r.p.dt, ws + ": time of the state trajectory", 1e-12);
            c.eq(pol.getReferenceStateTrajectory().getTimeFromIndex(k), k * r.p.dt, ws + ": policy time", 1e-12);
            if (k < r.K)
            {
                c.eqM(pol.uff()[k], r.u[k], ws + ": u", tol);
                c.eqM(ct_[k], r.u[k], ws + ": u (trajectory)", tol);
                c.eqM(pol.K()[k], r.L[k], ws + ": gain", tol);
                c.eq(ct_.getTimeFromIndex(k), k * r.p.dt, ws + ": time of the control trajectory", 1e-12);
            }
        }
        if (r.costKnown)
            c.eq(s->getCost(), r.ci + r.cf, w + ": cost", tol);
    }
    // one iteration of both; ends the execution when rounding decides
    void iterate(int mode, const VX* xMpc = nullptr)
    {
        bool found;
        bool mpc = mode == 2;
        if (mode == 0)
            found = s->runIteration();
        else if (mode == 1)
        {
            s->prepareIteration();
            found = s->finishIteration();
        }
        else
        {
            s->prepareMPCIteration();
            if (xMpc)
                s->changeInitialState(ct::core::StateVector<NX>(*xMpc));
            found = s->finishMPCIteration();
            if (xMpc)
            {
                VA d = r.d;
                r.x[0] = *xMpc;
                r.restart();
            }
        }
        c.step();
        size_t n0 = s->getBackend()->getSummary().merits.size();
        if (!r.iterate(mpc))
            c.prune();
        verifyIteration(found, n0);
    }
    // iterate until nothing improves or the maximum number of iterations is reached
    void solve()
    {
        bool ok = s->solve();
        size_t n0 = s->getBackend()->getSummary().merits.size();
        int n = 0;
        do
        {
            if (!r.iterate(false))
                c.prune();
            n++;
        } while (r.better && n < r.maxIter);
        c.step(n);
        c.check(ok, "solve reports failure");
        verifyIteration(r.better, n0);
    }
    void verifyIteration(bool found, size_t n0)
    {
        compare("iteration");
        c.check(found == r.better, std::string("iteration reports ") + (found ? "improvement" : "convergence") + ", expected the opposite");
        const auto& sm = s->getBackend()->getSummary();
        c.check(n0 > 0 && sm.iterations.size() == n0, "one summary entry per iteration");
        const double tol = 2e-7;
        c.eq(sm.stepSizes.back(), r.alpha, "accepted step size", 1e-12);
        if (r.costKnown)
        {
            c.eq(sm.totalCosts.back(), r.ci + r.cf, "summary: cost", tol);
            c.eq(sm.intermediateCosts.back(), r.ci, "summary: intermediate cost", tol);
            c.eq(sm.finalCosts.back(), r.cf, "summary: final cost", tol);
            c.eq(sm.merits.back(), r.merit, "summary: merit", tol);
            c.eq(sm.defect_l1_norms.back(), r.dn, "summary: defect (l1)", tol);
            c.eq(sm.defect_l2_norms.back(), r.dn2, "summary: defect (l2)", tol);
            c.eq(s->getBackend()->getTotalDefect(), r.dn, "total defect", tol);
            c.eq(sm.lx_norms.back(), r.lxn, "summary: state update", tol);
            c.eq(sm.lu_norms.back(), r.lun, "summary: control update", tol);
        }
        ct::core::StateMatrixArray<NX> A;
        ct::core::StateControlMatrixArray<NX, NU> B;
        ct::core::StateVectorArray<NX> b;
        s->getBackend()->retrieveLastAffineModel(A, B, b);
        for (int k = 0; k < r.K; k++)
        {
            c.eqM(A[k], r.A[k], "A", tol);
            c.eqM(B[k], r.B[k], "B", tol);
            c.eqM(b[k], r.b[k], "b", tol);
        }
        uint64_t h = r.alg;
        for (auto& v : r.x)
            h = mc::mix(h, mc::hd(v(0)));
        c.state(h);
    }
    VX start(int i)
    {
        VX x(NX);
        for (size_t k = 0; k < NX; k++)
            x(k) = i == 0 ? 0.7 - 0.9 * k : i == 1 ? -1.6 + 0.5 * k : 0.2 + 0.1 * k;
        return x;
    }
};
template <size_t NX, size_t NU, bool CONT>
static void iterations(mc::Ctx& c)
{
    Rig<NX, NU, CONT> g(c);
    Ref& r = g.r;
    r.p.scheme = CONT ? c.pick<Scheme>({EULER_FE, EULER_SENS2, RK4_BE}) : DISCRETE;
    r.alg = c.choose(7);
    r.K = c.thorough ? c.pick<int>({1, 2, 3, 4, 5}) : c.pick<int>({1, 2, 5});
    r.Kshot = r.alg == S::ILQR ? 1 : c.pick<int>({1, 2, 3});
    r.ls = c.choose(3);
    r.rho = (r.ls && !single(r.alg)) ? c.pick<double>({0, 4}) : 0;
    if (c.thorough)
    {
        r.alpha0 = r.ls ? c.pick<double>({1, 4}) : 1;
        r.nAlpha = r.ls ? c.pick<double>({0.5, 0.3}) : 0.5;
        r.lsMax = r.ls ? c.pick<int>({1, 4}) : 4;
    }
    else if (r.ls)
    {
        int v = c.choose(3);
        r.alpha0 = v == 1 ? 4 : 1;
        r.nAlpha = v == 1 ? 0.3 : 0.5;
        r.lsMax = v == 2 ? 1 : 4;
    }
    r.fixedCorr = r.ls == 0 && c.flip();
    r.eps = r.fixedCorr ? 0.05 : 1e-5;
    r.p.nl = c.pick<double>({0, 1, 4});
    r.p.dt = !CONT ? 0.25 : c.thorough ? c.pick<double>({0.1, 0.4}) : r.ls ? 0.4 : 0.1;
    int x0 = c.choose(2), gk = c.choose(2);
    c.log() << "scheme " << r.p.scheme << " alg " << r.alg << " K " << r.K << " shot " << r.Kshot << " ls " << r.ls << " rho " << r.rho << " nl " << r.p.nl << " guess " << gk << "\n";
    g.build(g.start(x0));
    g.guess(gk, g.start(x0));
    g.compare("guess");
    double lastMerit = 0;
    for (int i = 0; i < 3; i++)
    {
        g.iterate(i % 2);
        if (r.ls && i > 0)
            c.check(r.merit <= lastMerit + 1e-12, "merit increased");
        lastMerit = r.merit;
        if (i == 0 && r.ls == 0 && r.p.nl == 0 && r.p.scheme != RK4_BE && !r.fixedCorr)
        {
            // linear-quadratic: the full step is the global optimum (the linearisation is exact)
            LqRef q;
            Ref t = r;
            for (auto& v : t.x)
                v.setZero();
            for (auto& v : t.u)
                v.setZero();
            for (int k = 0; k < r.K; k++)
                t.d[k] = r.p.step(t.x[k], k, t.u[k]);
            q = t.lq();
            VA xo, uo;
            q.solve(0, g.start(x0), xo, uo);
            auto pol = g.s->getSolution();
            for (int k = 0; k < r.K; k++)
                c.eqM(pol.uff()[k], uo[k], "optimal control of the linear-quadratic problem", 1e-6);
            for (int k = 0; k <= r.K; k++)
                c.eqM(pol.x_ref()[k], xo[k], "optimal state of the linear-quadratic problem", 1e-6);
        }
    }
}
template <size_t NX, size_t NU, bool CONT>
static void histories(mc::Ctx& c, int depth)
{
    Rig<NX, NU, CONT> g(c);
    Ref& r = g.r;
    r.p.scheme = CONT ? EULER_FE : DISCRETE;
    r.p.dt = 0.2;
    r.alg = c.choose(7);
    r.K = 3;
    r.maxIter = 2;
    r.Kshot = single(r.alg) ? 1 : 2;
    r.ls = c.choose(2);
    r.rho = r.ls ? 2 : 0;
    g.build(g.start(0));
    g.guess(1, g.start(0));
    int xi = 0;
    if (!c.thorough && c.flip())
        g.iterate(0);
    for (int i = 0; i < depth; i++)
    {
        int op = i == depth - 1 ? c.pick<int>({0, 10, 11, 13}) : c.choose(14);
        switch (op)
        {
            case 0:
                c.log() << "iteration\n";
                if (r.mpcState)
                    c.prune();
                g.iterate(0);
                break;
            case 1:
                c.log() << "changeInitialState\n";
                xi = 1 + (xi == 1);
                g.s->changeInitialState(ct::core::StateVector<NX>(g.start(xi)));
                r.x[0] = g.start(xi);
                r.restart();
                break;
            case 2:
                c.log() << "changeTimeHorizon, guess\n";
                r.K = r.K == 3 ? 5 : r.K == 5 ? 1 : 3;
                g.s->changeTimeHorizon(r.K * r.p.dt);
                g.guess(1, g.start(xi));
                break;
            case 3:
                c.log() << "changeCostFunction\n";
                r.p.cost = !r.p.cost;
                g.s->changeCostFunction(std::shared_ptr<Cost<NX, NU>>(new Cost<NX, NU>(r.p)));
                r.costs(r.x, r.u, r.ci, r.cf);
                if (r.iter == 0)
                    r.costKnown = false;
                break;
            case 4:
                c.log() << "changeNonlinearSystem, changeLinearSystem\n";
                r.p.dyn = !r.p.dyn;
                g.s->changeNonlinearSystem(std::shared_ptr<typename Rig<NX, NU, CONT>::M::Sys>(new typename Rig<NX, NU, CONT>::M::Sys(r.p)));
                g.s->changeLinearSystem(std::shared_ptr<typename Rig<NX, NU, CONT>::M::Lin>(new typename Rig<NX, NU, CONT>::M::Lin(r.p)));
                r.restart();
                break;
            case 5:
                c.log() << "longer guess\n";
                g.guess(1, g.start(xi), 2);
                break;
            case 6:
                c.log() << "configure: line search\n";
                r.ls = (r.ls + 1) % 3;
                r.rho = r.ls ? 3 : 0;
                g.s->configure(settings(r));
                r.restart();
                break;
            case 7:
                c.log() << "configure: dt\n";
                r.p.dt = r.p.dt == 0.2 ? 0.3 : 0.2;
                g.s->configure(settings(r));
                r.restart();
                break;
            case 8:
                c.log() << "configure: algorithm\n";
                r.alg = r.alg == S::SS_CL ? S::GNMS_M_CL : r.alg == S::GNMS ? S::ILQR : S::SS_CL;
                r.Kshot = single(r.alg) ? 1 : 2;
                g.s->configure(settings(r));
                r.restart();
                break;
            case 9:
            {
                c.log() << "too short guess\n";
                VA x, u;
                MA L;
                makeGuess(1, NX, NU, r.K, g.start(xi), x, u, L);
                int which = c.choose(3);
                if (which == 0)
                    x.pop_back();
                else if (which == 1)
                    u.pop_back();
                else
                    L.pop_back();
                bool threw = false;
                try
                {
                    g.s->setInitialGuess(policy<NX, NU>(x, u, L, r.p.dt));
                } catch (const mc::EigenAssertion&)
                {
                    throw;
                } catch (const std::exception&)
                {
                    threw = true;
                }
                c.check(threw, "too short guess accepted");
                break;
            }
            case 10:
                c.log() << "MPC iteration\n";
                if (single(r.alg) && r.mpcState)
                    c.prune();
                g.iterate(2);
                break;
            case 11:
            {
                c.log() << "MPC iteration with a new initial state\n";
                xi = 1 + (xi == 1);
                VX x = g.start(xi);
                g.iterate(2, &x);
                break;
            }
            case 12:
                c.log() << "setProblem, guess\n";
                r.p.dyn = !r.p.dyn;
                r.p.cost = !r.p.cost;
                xi = 1 + (xi == 1);
                r.K = r.K == 3 ? 5 : r.K == 5 ? 1 : 3;
                g.s->setProblem(Rig<NX, NU, CONT>::M::problem(r.p, r.K, g.start(xi)));
                g.guess(1, g.start(xi));
                break;
            case 13:
                c.log() << "solve\n";
                if (r.mpcState)
                    c.prune();
                g.solve();
                break;
        }
        g.compare("operation");
    }
}
