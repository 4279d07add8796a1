// Multi-threaded solves under the controlled scheduler (P16)
#pragma once
#include "mc.h"
#include "mc_file.h"
#include "nloc_ref.h"
#include "sched_rt.h"
using namespace nloc;

static mc::Ctx* gCtx = nullptr;
static int schedChoose(int n)
{
    try
    {
        return gCtx->choose(n);
    } catch (const mc::Divergence& d)
    {
        fprintf(stderr, "DIVERGENCE %s\n", d.msg.c_str());
        _exit(4);
    }
}
// what is executed on the solver
enum Op
{
    ITER,
    SPLIT,      // prepareIteration / finishIteration
    MPC,        // prepareMPCIteration / changeInitialState / finishMPCIteration
    NEWSTATE,   // changeInitialState
    NEWCOST,
    NEWSYS,
    NOLS,       // configure: other line search
    HORIZON,    // changeTimeHorizon and a new guess
    ALG,        // configure: other algorithm
};
static const char* opName[] = {"iteration", "prepare/finish", "MPC iteration", "changeInitialState", "changeCostFunction", "change systems", "configure line search", "changeTimeHorizon", "configure algorithm"};
typedef std::vector<double> Obs;

template <size_t NX, size_t NU, bool CONT>
struct Run
{
    typedef Make<NX, NU, CONT> M;
    typedef ct::optcon::NLOptConSolver<NX, NU, NX / 2, NX / 2, double, CONT> Solver;
    typedef ct::optcon::NLOCBackendMP<NX, NU, NX / 2, NX / 2, double, CONT> Backend;
    static VX start(int i)
    {
        VX x(NX);
        for (size_t k = 0; k < NX; k++)
            x(k) = i == 0 ? 0.7 - 0.9 * k : i == 1 ? -1.6 + 0.5 * k : 0.2 + 0.1 * k;
        return x;
    }
    static void observe(Solver& s, Obs& o)
    {
        auto pol = s.getSolution();
        auto put = [&](const MX& m) {
            o.push_back(m.rows());
            o.push_back(m.cols());
            for (int i = 0; i < m.rows(); i++)
                for (int j = 0; j < m.cols(); j++)
                    o.push_back(m(i, j));
        };
        o.push_back(pol.x_ref().size());
        for (auto& v : pol.x_ref())
            put(v);
        o.push_back(pol.uff().size());
        for (auto& v : pol.uff())
            put(v);
        for (auto& v : pol.K())
            put(v);
        o.push_back(s.getCost());
        o.push_back(s.getTimeHorizon());
        const auto& sm = s.getBackend()->getSummary();
        auto last = [&](const std::vector<double>& v) {
            o.push_back(v.size());
            if (!v.empty())
                o.push_back(v.back());
        };
        o.push_back(sm.iterations.size());
        last(sm.stepSizes);
        last(sm.totalCosts);
        last(sm.intermediateCosts);
        last(sm.finalCosts);
        last(sm.merits);
        last(sm.defect_l1_norms);
        last(sm.defect_l2_norms);
        last(sm.lx_norms);
        last(sm.lu_norms);
        last(sm.smallestEigenvalues);
        if (!sm.iterations.empty())
        {
            o.push_back(s.getBackend()->getTotalDefect());
            ct::core::StateMatrixArray<NX> A;
            ct::core::StateControlMatrixArray<NX, NU> B;
            ct::core::StateVectorArray<NX> b;
            s.getBackend()->retrieveLastAffineModel(A, B, b);
            for (size_t k = 0; k < A.size(); k++)
            {
                put(A[k]);
                put(B[k]);
                put(b[k]);
            }
        }
    }
    static void run(Ref r, const std::vector<Op>& ops, int nThreads, Obs& o)
    {
        Solver s(M::problem(r.p, r.K, start(0)), settings(r, nThreads));
        auto guess = [&]() {
            VA x, u;
            MA L;
            makeGuess(1, NX, NU, r.K, start(0), x, u, L);
            s.setInitialGuess(policy<NX, NU>(x, u, L, r.p.dt));
        };
        if (ops.empty())
            return;
        guess();
        for (Op op : ops)
        {
            switch (op)
            {
                case ITER: o.push_back(s.runIteration()); break;
                case SPLIT:
                    s.prepareIteration();
                    o.push_back(s.finishIteration());
                    break;
                case MPC:
                    s.prepareMPCIteration();
                    s.changeInitialState(ct::core::StateVector<NX>(start(1)));
                    o.push_back(s.finishMPCIteration());
                    break;
                case NEWSTATE: s.changeInitialState(ct::core::StateVector<NX>(start(2))); break;
                case NEWCOST:
                    r.p.cost = !r.p.cost;
                    s.changeCostFunction(std::shared_ptr<Cost<NX, NU>>(new Cost<NX, NU>(r.p)));
                    break;
                case NEWSYS:
                    r.p.dyn = !r.p.dyn;
                    s.changeNonlinearSystem(std::shared_ptr<typename M::Sys>(new typename M::Sys(r.p)));
                    s.changeLinearSystem(std::shared_ptr<typename M::Lin>(new typename M::Lin(r.p)));
                    break;
                case NOLS:
                    r.ls = r.ls ? 0 : 1;
                    s.configure(settings(r, nThreads));
                    break;
                case HORIZON:
                    r.K = r.K == 3 ? 2 : 3;
                    s.changeTimeHorizon(r.K * r.p.dt);
                    guess();
                    break;
                case ALG:
                    r.alg = single(r.alg) ? S::GNMS_M_CL : S::SS_CL;
                    s.configure(settings(r, nThreads));
                    break;
            }
            sched::ignore(true);
            observe(s, o);
            sched::ignore(false);
        }
    }
    // explore the schedules of one script
    static void check(mc::Ctx& c, const Ref& r, const std::vector<Op>& ops, int nThreads, int dev, bool spurious)
    {
        for (Op op : ops)
            c.log() << opName[op] << "\n";
        mc::Quiet quiet;
        static std::map<std::string, Obs> cache;
        std::ostringstream key;
        key << r.alg << " " << r.K << " " << r.Kshot << " " << r.ls << " " << r.rho << " " << r.alpha0 << " " << r.nAlpha << " " << r.lsMax << " " << r.armijo << " " << r.p.nl << " " << r.p.scheme << " " << r.p.dt;
        for (Op op : ops)
            key << "," << op;
        auto it = cache.find(key.str());
        if (it == cache.end())
        {
            Obs o;
            run(r, ops, 1, o);
            it = cache.insert(std::make_pair(key.str(), o)).first;
        }
        sched::Options opt;
        opt.choose = schedChoose;
        opt.deviations = dev;
        opt.spurious = spurious;
        opt.objectSize = sizeof(Backend);
        gCtx = &c;
        Obs got;
        got.reserve(it->second.size() + 64);
        sched::begin(opt);
        try
        {
            run(r, ops, nThreads, got);
        } catch (...)
        {
            sched::end();
            throw;
        }
        sched::Stats st = sched::end();
        c.step(st.points);
        c.log() << "threads " << st.threads << ", scheduling points " << st.points << ", switches " << st.switches << ", accesses " << st.accesses << "\n";
        const Obs& want = it->second;
        c.eqI((int)st.threads, nThreads + 1, "threads");
        c.check(got.size() == want.size(), "multi-threaded solution has another shape than the single-threaded one");
        uint64_t h = r.alg;
        for (size_t i = 0; i < want.size(); i++)
        {
            c.eq(got[i], want[i], "multi-threaded differs from single-threaded result, item " + std::to_string(i), 1e-11);
            h = mc::mix(h, mc::hd(want[i]));
        }
        // canonical end state: result and number of context switches needed to get there
        c.state(mc::mix(h, st.switches));
    }
};
static Ref base(int alg, int K, int Kshot, int ls, bool cont)
{
    Ref r;
    r.p.nx = 2;
    r.p.nu = 1;
    r.p.scheme = cont ? EULER_FE : DISCRETE;
    r.p.dt = 0.25;
    r.p.nl = 1;
    r.alg = alg;
    r.K = K;
    r.Kshot = Kshot;
    r.ls = ls;
    r.rho = ls ? 2 : 0;
    r.lsMax = 3;
    return r;
}
// line searches: 0 none, 1 first step accepted, 2 later step accepted, 3 no step accepted, 4 armijo, 5 no candidates at all
static void lineSearch(Ref& r, int kind)
{
    r.ls = kind == 0 ? 0 : kind == 3 || kind == 4 ? 2 : 1;
    r.rho = r.ls ? 2 : 0;
    if (kind == 2)
    {
        r.alpha0 = 5;
        r.nAlpha = 0.3;
    }
    if (kind == 3)
        r.armijo = -1e4;
    if (kind == 5)
        r.lsMax = 0;
}
