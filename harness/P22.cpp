// P22: settings and matrices loaded from configuration files
// MC_LIBS: -lipopt -llapack -lblas
#include <sys/wait.h>
#include <ct/optcon/optcon.h>
#include <functional>
#include <map>
#include "mc.h"
#include "mc_file.h"
using namespace ct::optcon;
typedef NLOptConSettings S;

// a key of a settings class: how it is written to the file (value variant v), how it is read from the object
template <typename T>
struct Key
{
    std::string name;
    std::vector<std::string> text;  // file texts
    std::vector<double> val;        // expected numeric value of the member
    std::function<double(const T&)> get;
};
template <typename T>
static std::string fileOf(const std::vector<Key<T>>& ks, const std::vector<int>& variant, const std::string& ns)
{
    // keys "a.b" are nested
    std::map<std::string, std::string> sub;
    std::string top;
    for (size_t i = 0; i < ks.size(); i++)
        if (variant[i] >= 0)
        {
            size_t p = ks[i].name.rfind('.');
            std::string line = ks[i].name.substr(p == std::string::npos ? 0 : p + 1) + " " + ks[i].text[variant[i]] + "\n";
            (p == std::string::npos ? top : sub[ks[i].name.substr(0, p)]) += line;
        }
    std::string s = "unrelated 17\n" + ns + "\n{\n" + top;
    for (auto& e : sub)
    {
        // one or two nesting levels
        std::string path = e.first, open, close;
        size_t p;
        while ((p = path.find('.')) != std::string::npos)
        {
            open += path.substr(0, p) + "\n{\n";
            close += "}\n";
            path = path.substr(p + 1);
        }
        s += open + path + "\n{\n" + e.second + "}\n" + close;
    }
    return s + "}\nother\n{\n dt 99\n epsilon 98\n}\n";
}
#define NUM(nm, field, a, b) Key<S>{nm, {mc::num(a), mc::num(b)}, {(double)(a), (double)(b)}, [](const S& s) { return (double)s.field; }}
#define BOO(nm, field) Key<S>{nm, {"true", "false"}, {1, 0}, [](const S& s) { return (double)s.field; }}
static std::vector<Key<S>> nlocKeys()
{
    typedef ct::core::IntegrationType IT;
    typedef S::APPROXIMATION AP;
    std::vector<Key<S>> k = {NUM("epsilon", epsilon, 0.25, 0.5), NUM("min_cost_improvement", min_cost_improvement, 0.375, 3), NUM("maxDefectSum", maxDefectSum, 0.625, 4),
        NUM("meritFunctionRho", meritFunctionRho, 7.5, 5), NUM("meritFunctionRhoConstraints", meritFunctionRhoConstraints, 8.5, 6), NUM("max_iterations", max_iterations, 17, 18),
        NUM("nThreads", nThreads, 3, 2), NUM("dt", dt, 0.0625, 0.5), NUM("K_sim", K_sim, 5, 6), NUM("K_shot", K_shot, 7, 8), NUM("nThreadsEigen", nThreadsEigen, 9, 10),
        BOO("timeVaryingDiscretization", timeVaryingDiscretization), BOO("debugPrint", debugPrint), BOO("printSummary", printSummary), BOO("useSensitivityIntegrator", useSensitivityIntegrator),
        BOO("logToMatlab", logToMatlab), BOO("recordSmallestEigenvalue", recordSmallestEigenvalue), BOO("fixedHessianCorrection", fixedHessianCorrection),
        Key<S>{"loggingPrefix", {"abc", "xy"}, {3, 2}, [](const S& s) { return s.loggingPrefix == "abc" ? 3.0 : s.loggingPrefix == "xy" ? 2.0 : s.loggingPrefix == "alg" ? 1.0 : -1.0; }},
        Key<S>{"integrator", {"RK4CT", "Euler", "RK4", "MODIFIED_MIDPOINT", "ODE45", "RK5VARIABLE", "RK78", "BULIRSCHSTOER", "EulerCT", "Euler_Sym", "Rk_Sym"},
            {(double)IT::RK4CT, (double)IT::EULER, (double)IT::RK4, (double)IT::MODIFIED_MIDPOINT, (double)IT::ODE45, (double)IT::RK5VARIABLE, (double)IT::RK78, (double)IT::BULIRSCHSTOER,
                (double)IT::EULERCT, (double)IT::EULER_SYM, (double)IT::RK_SYM},
            [](const S& s) { return (double)s.integrator; }},
        Key<S>{"discretization", {"Matrix_exponential", "Forward_euler", "Backward_euler", "Symplectic_euler", "Tustin"},
            {(double)AP::MATRIX_EXPONENTIAL, (double)AP::FORWARD_EULER, (double)AP::BACKWARD_EULER, (double)AP::SYMPLECTIC_EULER, (double)AP::TUSTIN},
            [](const S& s) { return (double)s.discretization; }},
        Key<S>{"nlocp_algorithm", {"MS_ILQR", "GNMS", "ILQR", "SS_OL", "SS_CL", "GNMS_M_OL", "GNMS_M_CL"},
            {(double)S::MS_ILQR, (double)S::GNMS, (double)S::ILQR, (double)S::SS_OL, (double)S::SS_CL, (double)S::GNMS_M_OL, (double)S::GNMS_M_CL},
            [](const S& s) { return (double)s.nlocp_algorithm; }},
        Key<S>{"locp_solver", {"HPIPM_SOLVER", "GNRICCATI_SOLVER"}, {(double)S::HPIPM_SOLVER, (double)S::GNRICCATI_SOLVER}, [](const S& s) { return (double)s.lqocp_solver; }},
        Key<S>{"line_search.type", {"ARMIJO", "NONE", "SIMPLE", "GOLDSTEIN"},
            {(double)LineSearchSettings::ARMIJO, (double)LineSearchSettings::NONE, (double)LineSearchSettings::SIMPLE, (double)LineSearchSettings::GOLDSTEIN},
            [](const S& s) { return (double)s.lineSearchSettings.type; }},
        NUM("line_search.maxIterations", lineSearchSettings.maxIterations, 21, 22), NUM("line_search.alpha_0", lineSearchSettings.alpha_0, 0.75, 0.875),
        NUM("line_search.n_alpha", lineSearchSettings.n_alpha, 0.125, 0.25), BOO("line_search.debugPrint", lineSearchSettings.debugPrint),
        NUM("line_search.armijo_parameter", lineSearchSettings.armijo_parameter, 0.03125, 0.0625), BOO("line_search.adaptive", lineSearchSettings.adaptive),
        NUM("line_search.alpha_max", lineSearchSettings.alpha_max, 1.75, 1.5), NUM("lqoc_solver_settings.num_lqoc_iterations", lqoc_solver_settings.num_lqoc_iterations, 31, 32),
        BOO("lqoc_solver_settings.lqoc_debug_print", lqoc_solver_settings.lqoc_debug_print)};
    return k;
}
static int keyIndex(const std::vector<Key<S>>& ks, const std::string& n)
{
    for (size_t i = 0; i < ks.size(); i++)
        if (ks[i].name == n)
            return i;
    throw std::logic_error(n);
}
static std::vector<double> values(const std::vector<Key<S>>& ks, const S& s)
{
    std::vector<double> v;
    for (auto& k : ks)
        v.push_back(k.get(s));
    return v;
}
static void expectNloc(mc::Ctx& c, const std::vector<Key<S>>& ks, const std::vector<int>& var, const S& s, std::vector<double> base)
{
    int a0 = keyIndex(ks, "line_search.alpha_0"), am = keyIndex(ks, "line_search.alpha_max");
    for (size_t i = 0; i < ks.size(); i++)
    {
        double want = var[i] >= 0 ? ks[i].val[var[i]] : base[i];
        if ((int)i == am && var[i] < 0 && var[a0] >= 0)
            want = ks[a0].val[var[a0]];  // the limit follows alpha_0 unless specified
        c.eq(ks[i].get(s), want, ks[i].name + (var[i] >= 0 ? " (specified)" : " (not specified)"));
    }
}
static void describe(mc::Ctx& c, const std::vector<Key<S>>& ks, const std::vector<int>& var, bool present)
{
    c.log() << (present ? "keys:" : "missing keys:");
    for (size_t i = 0; i < ks.size(); i++)
        if ((var[i] >= 0) == present)
            c.log() << " " << ks[i].name;
    c.log() << "; ";
}
MC_SUITE(nloc_presence, "33 keys of the solver settings: none/all present with every pair of keys toggled, two values; loaded by the member (two namespaces, verbose or not) or the static loader")
{
    mc::Quiet q;
    static const auto ks = nlocKeys();
    int n = ks.size();
    bool all = c.flip();
    std::vector<int> var(n, all ? 0 : -1);
    int v = c.choose(2);
    int i = c.choose(n + 1), j = i < n ? i + c.choose(n - i) : n;
    if (i < n)
        var[i] = all ? -1 : v;
    if (j < n)
        var[j] = all ? -1 : v;
    if (all && v)
        for (int k = 0; k < n; k++)
            if (var[k] >= 0)
                var[k] = 1;
    std::string ns = c.pick<std::string>({"alg", "mysolver"});
    describe(c, ks, var, !all);
    mc::MemFile f(fileOf(ks, var, ns));
    S s;
    auto base = values(ks, s);
    int how = ns == "alg" ? 2 * c.choose(2) : 1;
    c.step();
    if (how == 2)
        s = S::fromConfigFile(f.path, false, ns);
    else
        s.load(f.path, how == 1, ns);
    expectNloc(c, ks, var, s, base);
    c.state(mc::mix(c.hist, 0));
}
MC_SUITE(nloc_names, "every integrator, discretisation, algorithm, LQ solver and line-search name, with the other names present or absent; predicates derived from the algorithm")
{
    mc::Quiet q;
    static const auto ks = nlocKeys();
    std::vector<int> var(ks.size(), -1);
    const char* en[5] = {"integrator", "discretization", "nlocp_algorithm", "locp_solver", "line_search.type"};
    int which = c.choose(5);
    for (int e = 0; e < 5; e++)
    {
        int k = keyIndex(ks, en[e]);
        if (e == which)
            var[k] = c.choose(ks[k].text.size());
        else
            var[k] = (int)c.choose(2) - 1;
    }
    describe(c, ks, var, true);
    mc::MemFile f(fileOf(ks, var, "alg"));
    S s;
    auto base = values(ks, s);
    c.step();
    s.load(f.path, c.flip());
    expectNloc(c, ks, var, s, base);
    bool cl = s.nlocp_algorithm == S::ILQR || s.nlocp_algorithm == S::MS_ILQR || s.nlocp_algorithm == S::SS_CL || s.nlocp_algorithm == S::GNMS_M_CL;
    bool ss = s.nlocp_algorithm == S::ILQR || s.nlocp_algorithm == S::SS_OL || s.nlocp_algorithm == S::SS_CL;
    c.eqI(s.closedLoopShooting(), cl, "closed-loop shooting");
    c.eqI(s.isSingleShooting(), ss, "single shooting");
}
MC_SUITE(nloc_reload, "two files loaded one after the other, every pair of keys: the second overrides exactly what it specifies")
{
    mc::Quiet q;
    static const auto ks = nlocKeys();
    int n = ks.size();
    // (absent alpha_max/adaptive are re-derived by a line-search section, so the second file has none of its own)
    int m = keyIndex(ks, "line_search.type");
    S s;
    bool all = c.flip();
    std::vector<int> va(n, all ? 0 : -1), vb(n, -1);
    int i = c.choose(m), j = c.choose(m);
    if (!all)
        va[i] = 0;
    vb[j] = 1;
    auto base = values(ks, s);
    mc::MemFile fa(fileOf(ks, va, "alg")), fb(fileOf(ks, vb, "alg"));
    c.log() << (all ? "everything" : ks[i].name) << " then " << ks[j].name;
    s.load(fa.path, false);
    expectNloc(c, ks, va, s, base);
    base = values(ks, s);
    s.load(fb.path, false);
    c.step(2);
    for (int k = 0; k < m; k++)
        c.eq(ks[k].get(s), k == j ? ks[k].val[1] : base[k], ks[k].name);
    c.state(mc::mix(i, j));
}
static int exitCodeOf(const std::function<void()>& f)
{
    pid_t p = fork();
    if (p == 0)
    {
        int rc = 0;
        try
        {
            f();
        } catch (...)
        {
            rc = 77;
        }
        _exit(rc);
    }
    int st = 0;
    waitpid(p, &st, 0);
    return WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
}
MC_SUITE(nloc_unknown, "unknown names for each enumerated key, alone or with other keys: the load is refused or the default stays")
{
    mc::Quiet q;
    static const auto ks = nlocKeys();
    std::vector<int> var(ks.size(), c.flip() ? 0 : -1);
    const char* en[5] = {"integrator", "discretization", "nlocp_algorithm", "locp_solver", "line_search.type"};
    int k = keyIndex(ks, en[c.choose(5)]);
    auto ks2 = ks;
    ks2[k].text = {c.pick<std::string>({"Nonsense", "rk4", "gnms", "7", "\"\""})};
    var[k] = 0;
    mc::MemFile f(fileOf(ks2, var, "alg"));
    c.log() << ks[k].name << " " << ks2[k].text[0];
    c.step();
    S def;
    double d = ks[k].get(def);
    int rc = exitCodeOf([&]() {
        S s;
        s.load(f.path, false);
        _exit(ks[k].get(s) == d ? 0 : 3);
    });
    c.check(rc != 3, "an unknown name selects some other value");
    c.check(rc >= 0, "crash on an unknown name");
}
MC_SUITE(derived, "number of stages, simulation step and validity for all table values")
{
    mc::Quiet q;
    S s;
    s.nThreads = 1;
    s.nThreadsEigen = 1;
    switch (c.choose(2))
    {
        case 0:
        {
            s.dt = c.pick<double>({0.1, 0.25, 0.001, 1.0});
            double T = c.pick<double>({0.0, 0.01, 0.1, 0.12, 0.3, 0.35, 0.7, 1.0, 2.3, 5.0, -0.1, -1e-9});
            s.K_sim = c.pick<int>({1, 2, 5});
            c.log() << "dt " << s.dt << " T " << T;
            c.step();
            if (T < 0)
                c.throws([&]() { s.computeK(T); }, "negative horizon");
            else
            {
                double r = T / s.dt;
                int k = s.computeK(T);
                c.check(k >= 1 && (std::fabs(k - r) <= 0.5 + 1e-9 || (k == 1 && r < 1)), "number of stages " + std::to_string(k));
            }
            c.eq(s.getSimulationTimestep(), s.dt / s.K_sim, "simulation step");
            break;
        }
        default:
        {
            s.dt = c.pick<double>({0.1, 0.0, -1.0});
            s.K_sim = c.pick<int>({1, 0, -1, 3});
            s.K_shot = c.pick<int>({1, 0, 2});
            s.nlocp_algorithm = c.pick<S::NLOCP_ALGORITHM>({S::GNMS, S::ILQR, S::MS_ILQR});
            s.nThreads = c.pick<int>({1, 100, 101});
            s.nThreadsEigen = c.pick<int>({1, 101});
            s.lineSearchSettings.alpha_0 = c.pick<double>({1.0, 0.0});
            s.lineSearchSettings.n_alpha = c.pick<double>({0.5, 0.0, 1.0});
            s.lineSearchSettings.alpha_max = c.pick<double>({1.0, -1.0});
            c.step();
            bool ls = s.lineSearchSettings.alpha_0 > 0 && s.lineSearchSettings.n_alpha > 0 && s.lineSearchSettings.n_alpha < 1 && s.lineSearchSettings.alpha_max > 0;
            bool ok = s.dt > 0 && s.K_sim >= 1 && s.K_shot >= 1 && !(s.K_shot > 1 && s.nlocp_algorithm == S::ILQR) && s.nThreads <= 100 && s.nThreadsEigen <= 100 && ls;
            c.eqI(s.parametersOk(), ok, "validity of the settings");
            c.eqI(s.lineSearchSettings.parametersOk(), ls, "validity of the line-search settings");
        }
    }
}

// ---------------------------------------------------------------- multiple shooting / NLP / derivative settings (mandatory keys)
#define DNUM(nm, field, a, b) Key<DmsSettings>{nm, {mc::num(a), mc::num(b)}, {(double)(a), (double)(b)}, [](const DmsSettings& s) { return (double)s.field; }}
#define DBOO(nm, field) Key<DmsSettings>{nm, {"true", "false"}, {1, 0}, [](const DmsSettings& s) { return (double)s.field; }}
#define DSTR(nm, field, def) \
    Key<DmsSettings>{nm, {"abc", "xyz"}, {3, 4}, [](const DmsSettings& s) { return s.field == "abc" ? 3.0 : s.field == "xyz" ? 4.0 : s.field == def ? 1.0 : -1.0; }}
static std::vector<Key<DmsSettings>> dmsKeys(int& mandatory, bool snopt)
{
    std::vector<Key<DmsSettings>> k = {DNUM("N", N_, 7, 11), DNUM("T", T_, 2.5, 3.5), DNUM("nThreads", nThreads_, 2, 3), DNUM("InterpolationType", splineType_, 1, 0),
        DNUM("CostEvaluationType", costEvaluationType_, 1, 0), DNUM("ObjectiveType", objectiveType_, 1, 0), DNUM("h_min", h_min_, 0.25, 0.5), DNUM("IntegrationType", integrationType_, 2, 0),
        DNUM("dt_sim", dt_sim_, 0.125, 0.5), DNUM("AbsErrTol", absErrTol_, 0.0625, 0.03125), DNUM("RelErrTol", relErrTol_, 0.015625, 0.25),
        DNUM("solver.SolverType", solverSettings_.solverType_, snopt ? 1 : 0, snopt ? 1 : 0), DBOO("solver.UseGeneratedCostGradient", solverSettings_.useGeneratedCostGradient_),
        DBOO("solver.UseGeneratedConstraintJacobian", solverSettings_.useGeneratedConstraintJacobian_), DBOO("cppad.MultiThreading", cppadSettings_.multiThreading_),
        DBOO("cppad.CreateForwardZero", cppadSettings_.createForwardZero_), DBOO("cppad.CreateForwardOne", cppadSettings_.createForwardOne_),
        DBOO("cppad.CreateReverseOne", cppadSettings_.createReverseOne_), DBOO("cppad.CreateReverseTwo", cppadSettings_.createReverseTwo_),
        DBOO("cppad.CreateJacobian", cppadSettings_.createJacobian_), DBOO("cppad.CreateSparseJacobian", cppadSettings_.createSparseJacobian_),
        DBOO("cppad.CreateHessian", cppadSettings_.createHessian_), DBOO("cppad.CreateSparseHessian", cppadSettings_.createSparseHessian_),
        DNUM("cppad.MaxAssignements", cppadSettings_.maxAssignements_, 123, 456), DBOO("cppad.GenerateSourceCode", cppadSettings_.generateSourceCode_),
        DBOO("cppad.UseDynamicLibrary", cppadSettings_.useDynamicLibrary_),
        Key<DmsSettings>{"cppad.Compiler", {"CLANG", "GCC"}, {1, 0}, [](const DmsSettings& s) { return (double)s.cppadSettings_.compiler_; }}};
    std::vector<Key<DmsSettings>> sn = {DNUM("solver.snopt.MaxMinorIterations", solverSettings_.snoptSettings_.minor_iteration_limit_param_, 41, 42),
        DNUM("solver.snopt.MaxMajorIterations", solverSettings_.snoptSettings_.major_iteration_limit_param_, 43, 44),
        DNUM("solver.snopt.MinorPrintLevelVerbosity", solverSettings_.snoptSettings_.minor_print_level_param_, 45, 46),
        DNUM("solver.snopt.MajorPrintLevelVerbosity", solverSettings_.snoptSettings_.major_print_level_param_, 47, 48),
        DNUM("solver.snopt.OptimalityTolerance", solverSettings_.snoptSettings_.major_optimality_tolerance_param_, 0.5, 0.25)};
    std::vector<Key<DmsSettings>> im = {DNUM("solver.ipopt.MaxIterations", solverSettings_.ipoptSettings_.max_iter_, 51, 52),
        Key<DmsSettings>{"solver.ipopt.CheckDerivatives", {"true", "false"}, {1, 0},
            [](const DmsSettings& s) { return s.solverSettings_.ipoptSettings_.derivativeTest_ == "first-order" ? 1.0 : s.solverSettings_.ipoptSettings_.derivativeTest_ == "none" ? 0.0 : -1; }},
        Key<DmsSettings>{"solver.ipopt.ExactHessian", {"true", "false"}, {1, 0},
            [](const DmsSettings& s) { return s.solverSettings_.ipoptSettings_.hessian_approximation_ == "exact" ? 1.0 : s.solverSettings_.ipoptSettings_.hessian_approximation_ == "limited-memory" ? 0.0 : -1; }},
        DNUM("solver.ipopt.Verbosity", solverSettings_.ipoptSettings_.printLevel_, 3, 4), DNUM("solver.ipopt.OptimalityTolerance", solverSettings_.ipoptSettings_.tol_, 0.5, 0.25)};
    std::vector<Key<DmsSettings>> io = {DSTR("solver.ipopt.jacobianApproximation", solverSettings_.ipoptSettings_.jacobianApproximation_, "finite-difference-values"),
        DNUM("solver.ipopt.restoAcceptableTol", solverSettings_.ipoptSettings_.restoAcceptableTol_, 0.5, 0.25), DNUM("solver.ipopt.constr_viol_tol", solverSettings_.ipoptSettings_.constr_viol_tol_, 0.375, 0.25),
        DNUM("solver.ipopt.restoTol", solverSettings_.ipoptSettings_.restoTol_, 0.5, 0.25), DNUM("solver.ipopt.acceptableTol", solverSettings_.ipoptSettings_.acceptableTol_, 0.5, 0.25),
        DSTR("solver.ipopt.linear_scaling_on_demand", solverSettings_.ipoptSettings_.linear_scaling_on_demand_, "yes"), DSTR("solver.ipopt.nlp_scaling_method", solverSettings_.ipoptSettings_.nlp_scaling_method_, "gradient-based"),
        DSTR("solver.ipopt.print_user_options", solverSettings_.ipoptSettings_.print_user_options_, "no"), DSTR("solver.ipopt.printInfoString", solverSettings_.ipoptSettings_.printInfoString_, "no"),
        DNUM("solver.ipopt.derivativeTestTol", solverSettings_.ipoptSettings_.derivativeTestTol_, 0.5, 0.25),
        DNUM("solver.ipopt.derivativeTestPerturbation", solverSettings_.ipoptSettings_.derivativeTestPerturbation_, 0.5, 0.25),
        DNUM("solver.ipopt.point_perturbation_radius", solverSettings_.ipoptSettings_.point_perturbation_radius_, 0.5, 0.25),
        DSTR("solver.ipopt.checkDerivativesForNaninf", solverSettings_.ipoptSettings_.checkDerivativesForNaninf_, "no"), DSTR("solver.ipopt.derivativeTestPrintAll", solverSettings_.ipoptSettings_.derivativeTestPrintAll_, "no"),
        DSTR("solver.ipopt.linear_solver", solverSettings_.ipoptSettings_.linear_solver_, "mumps"), DSTR("solver.ipopt.linearSystemScaling", solverSettings_.ipoptSettings_.linearSystemScaling_, "none")};
    if (snopt)
        k.insert(k.end(), sn.begin(), sn.end());
    else
        k.insert(k.end(), im.begin(), im.end());
    mandatory = k.size();
    if (!snopt)
        k.insert(k.end(), io.begin(), io.end());
    return k;
}
// property-tree merges neither of two sections of the same name: group nested sections by hand
static std::string dmsFile(const std::vector<Key<DmsSettings>>& ks, const std::vector<int>& var, const std::string& ns)
{
    std::string top, solver, cppad, ipopt, snopt;
    for (size_t i = 0; i < ks.size(); i++)
        if (var[i] >= 0)
        {
            std::string n = ks[i].name;
            size_t p = n.rfind('.');
            std::string line = n.substr(p == std::string::npos ? 0 : p + 1) + " " + ks[i].text[var[i]] + "\n";
            std::string pre = p == std::string::npos ? "" : n.substr(0, p);
            (pre == "" ? top : pre == "solver" ? solver : pre == "cppad" ? cppad : pre == "solver.ipopt" ? ipopt : snopt) += line;
        }
    return ns + "\n{\n" + top + "cppad\n{\n" + cppad + "}\nsolver\n{\n" + solver + "ipopt\n{\n" + ipopt + "}\nsnopt\n{\n" + snopt + "}\n}\n}\n";
}
MC_SUITE(dms_files, "multiple-shooting, NLP-solver (IPOPT, SNOPT) and derivative settings: two value sets, every single mandatory key missing, every pair of optional keys present/missing")
{
    mc::Quiet q;
    bool snopt = c.flip();
    int m;
    auto ks = dmsKeys(m, snopt);
    int n = ks.size();
    int v = c.choose(2);
    std::vector<int> var(n, v);
    int miss = c.choose(m + 1) - 1;
    int lone = -1;
    if (miss >= 0)
        var[miss] = -1;
    else
    {
        bool all = c.flip();
        if (!all)
            for (int k = m; k < n; k++)
                var[k] = -1;
        if (n > m && c.flip())
        {
            int i = m + c.choose(n - m), j = i + c.choose(n - i);
            var[i] = all ? -1 : v;
            var[j] = all ? -1 : v;
            lone = m;
        }
        else
            lone = c.choose(m + 1);  // one mandatory key with the other value, so that keys are told apart
        if (lone < m)
            var[lone] = 1 - v;
    }
    std::string ns = c.pick<std::string>({"dms", "other"});
    mc::MemFile f(dmsFile(ks, var, ns));
    DmsSettings s, def;
    c.step();
    if (miss >= 0)
    {
        c.log() << "missing " << ks[miss].name;
        c.throws([&]() { s.load(f.path, false, ns); }, ("missing key " + ks[miss].name).c_str());
        return;
    }
    c.log() << "values " << v << ", other value for " << (lone < m ? ks[lone].name : "none");
    s.load(f.path, c.flip(), ns);
    for (int k = 0; k < n; k++)
        c.eq(ks[k].get(s), var[k] >= 0 ? ks[k].val[var[k]] : ks[k].get(def), ks[k].name + (var[k] >= 0 ? " (specified)" : " (not specified)"));
    c.state(mc::mix(c.hist, 1));
}
MC_SUITE(dms_validity, "validity check of the multiple-shooting settings around every limit, one or two settings off-nominal")
{
    DmsSettings s;
    bool ok = true;
    for (int r = 0; r < 2; r++)
    {
        int w = c.choose(11);
        switch (w)
        {
            case 0:
                s.N_ = c.pick<size_t>({0, 1, 1000, 1001});
                break;
            case 1:
                s.T_ = c.pick<double>({0.0, -1.0, 0.5});
                break;
            case 2:
                s.nThreads_ = c.pick<size_t>({0, 1, 32, 33});
                break;
            case 3:
                s.splineType_ = (DmsSettings::SplineType_t)c.choose(3);
                break;
            case 4:
                s.costEvaluationType_ = (DmsSettings::CostEvaluationType_t)c.choose(3);
                break;
            case 5:
                s.objectiveType_ = (DmsSettings::ObjectiveType_t)c.choose(3);
                break;
            case 6:
                s.h_min_ = c.pick<double>({0.009, 0.01, 0.5, 5.0, 5.1});
                break;
            case 7:
                s.integrationType_ = (DmsSettings::IntegrationType_t)c.choose(4);
                break;
            case 8:
                s.dt_sim_ = c.pick<double>({0.0, -1.0, 0.5, 100.0, 100.5});
                break;
            case 9:
                s.absErrTol_ = c.pick<double>({0.0, 1e-20, 1e-19, 1.0, 1.1});
                break;
            default:
                s.relErrTol_ = c.pick<double>({0.0, 1e-20, 1e-19, 1.0, 1.1});
        }
    }
    ok = s.N_ >= 1 && s.N_ <= 1000 && s.T_ > 0 && s.nThreads_ >= 1 && s.nThreads_ <= 32 && s.splineType_ < 2 && s.costEvaluationType_ < 2 && s.objectiveType_ < 2 && s.h_min_ >= 0.01 &&
         s.h_min_ <= s.T_ && s.integrationType_ < 3 && s.dt_sim_ > 0 && s.dt_sim_ <= 100 && s.absErrTol_ > 1e-20 && s.absErrTol_ <= 1 && s.relErrTol_ > 1e-20 && s.relErrTol_ <= 1;
    c.step();
    c.eqI(s.parametersOk(), ok, "validity of the settings");
}

// ---------------------------------------------------------------- MPC settings
#define MNUM(nm, field, a, b) Key<mpc_settings>{nm, {mc::num(a), mc::num(b)}, {(double)(a), (double)(b)}, [](const mpc_settings& s) { return (double)s.field; }}
#define MBOO(nm, field) Key<mpc_settings>{nm, {"true", "false"}, {1, 0}, [](const mpc_settings& s) { return (double)s.field; }}
MC_SUITE(mpc_files, "MPC settings: two value sets with any one key different, every single key missing")
{
    static const std::vector<Key<mpc_settings>> ks = {MBOO("measureDelay", measureDelay_), MBOO("stateForwardIntegration", stateForwardIntegration_),
        MNUM("stateForwardIntegration_dt", stateForwardIntegration_dt_, 0.25, 0.5), MNUM("stateForwardIntegratorType", stateForwardIntegratorType_, 0, 7), MNUM("fixedDelayUs", fixedDelayUs_, 111, 222),
        MNUM("additionalDelayUs", additionalDelayUs_, 333, 444), MNUM("timeHorizon", minimumTimeHorizonMpc_, 2.5, 3.5), MBOO("coldStart", coldStart_), MBOO("postTruncation", postTruncation_),
        MNUM("delayMeasurementMultiplier", delayMeasurementMultiplier_, 0.125, 0.375), MBOO("useExternalTiming", useExternalTiming_)};
    int n = ks.size();
    std::vector<int> var(n, c.choose(2));
    int k = c.choose(n + 1);
    bool missing = k < n && c.flip();
    if (k < n)
        var[k] = missing ? -1 : 1 - var[k];
    mc::MemFile f(fileOf(ks, var, "mpc"));
    mpc_settings s;
    c.step();
    if (missing)
    {
        c.log() << "missing " << ks[k].name;
        c.throws([&]() { loadMpcSettings(f.path, s); }, ("missing key " + ks[k].name).c_str());
        return;
    }
    loadMpcSettings(f.path, s);
    for (int i = 0; i < n; i++)
        c.eq(ks[i].get(s), ks[i].val[var[i]], ks[i].name);
    c.eqI(s.mpc_mode, mpc_settings().mpc_mode, "mode untouched");
}

// ---------------------------------------------------------------- scalars and matrices
template <int R, int C>
static void matrixCase(mc::Ctx& c)
{
    Eigen::Matrix<double, R, C> m = Eigen::Matrix<double, R, C>::Constant(55), want;
    double sc = 1;
    std::string body;
    bool nested = c.flip();
    int s = c.choose(3);
    if (s)
    {
        sc = s == 1 ? 2.5 : 0.0;
        body += "scaling " + mc::num(sc) + "\n";
    }
    bool present = c.flip();
    for (int i = 0; i < R; i++)
        for (int j = 0; j < C; j++)
        {
            bool p = c.flip();
            double v = (i + 1) * 10 + j + 0.5;
            want(i, j) = p && present ? sc * v : 0.0;
            if (p)
                body += "(" + std::to_string(i) + "," + std::to_string(j) + ") " + mc::num(v) + "\n";
        }
    body += "(7,7) 3.0\n";
    std::string mat = (present ? "M" : "X") + std::string("\n{\n") + body + "}\n";
    mc::MemFile f(nested ? "a\n{\nb\n{\n" + mat + "}\n}\nM\n{\n(0,0) 1e6\n}\n" : mat);
    c.step();
    c.log() << body;
    ct::core::loadMatrix(f.path, "M", m, nested ? "a.b." : "");
    c.eqM(m, want, "matrix");
    c.state(mc::mix(c.hist, R));
}
MC_SUITE(matrices, "all subsets of entries of 1x1, 2x2, 3x2 and 3x1 matrices x scaling (absent, non-trivial, zero) x namespace x missing matrix")
{
    switch (c.choose(4))
    {
        case 0: matrixCase<1, 1>(c); break;
        case 1: matrixCase<2, 2>(c); break;
        case 2: matrixCase<3, 2>(c); break;
        default: matrixCase<3, 1>(c);
    }
}
MC_SUITE(scalars, "scalars, mandatory and optional, present or absent, in and outside a namespace")
{
    bool present = c.flip(), nested = c.flip(), opt = c.flip();
    double v = c.pick<double>({0.0, -1.25, 3e7, 1e-300});
    std::string line = std::string(present ? "val" : "vol") + " " + mc::num(v) + "\n";
    mc::MemFile f(nested ? "n\n{\n" + line + "}\nval 9\n" : line + "n\n{\nval 9\n}\n");
    std::string ns = nested ? "n." : "";
    double got = 77;
    c.step();
    if (opt)
    {
        ct::core::loadScalarOptional(f.path, "val", got, 5.5, ns);
        c.eq(got, present ? v : 5.5, "optional scalar");
    }
    else if (present)
    {
        ct::core::loadScalar(f.path, "val", got, ns);
        c.eq(got, v, "scalar");
    }
    else
        c.throws([&]() { ct::core::loadScalar(f.path, "val", got, ns); }, "missing scalar");
}
MC_SUITE(filter_files, "state-estimator settings: matrices and scalars from any namespace")
{
    mc::Quiet q;
    std::string ns = c.pick<std::string>({"", "kf.", "a.b."});
    bool verbose = c.flip();
    double al = c.pick<double>({0.125, 1.0, 3.5}), be = c.pick<double>({2.0, 0.0}), ka = c.pick<double>({-0.5, 0.0, 1.0});
    bool it = c.flip();
    std::string body = "alpha " + mc::num(al) + "\nbeta " + mc::num(be) + "\nkappa " + mc::num(ka) + "\n" + (it ? "maxDAREIterations 321\n" : "") +
                       "x0\n{\n(0,0) 1.5\n(1,0) -2\n}\nP0\n{\nscaling 2\n(0,0) 1\n(0,1) 3\n(1,1) 4\n}\nC\n{\n(0,1) 7\n}\nQ\n{\n(1,0) 8\n}\nR\n{\n(0,0) 9\n}\ndFdv\n{\n(1,1) 10\n}\n";
    if (ns == "kf.")
        body = "kf\n{\n" + body + "}\n";
    if (ns == "a.b.")
        body = "a\n{\nb\n{\n" + body + "}\n}\n";
    mc::MemFile f(body);
    Eigen::Vector2d x0(1.5, -2);
    Eigen::Matrix2d P0, Z = Eigen::Matrix2d::Zero(), Q = Z, D = Z;
    P0 << 2, 6, 0, 8;
    Q(1, 0) = 8;
    D(1, 1) = 10;
    c.step(4);
    UnscentedKalmanFilterSettings<2> u;
    u.load(f.path, verbose, ns);
    c.eqM(u.x0, x0, "x0");
    c.eqM(u.P0, P0, "P0");
    c.eq(u.alpha, al, "alpha");
    c.eq(u.beta, be, "beta");
    c.eq(u.kappa, ka, "kappa");
    ExtendedKalmanFilterSettings<2> e;
    e.load(f.path, verbose, ns);
    c.eqM(e.x0, x0, "x0");
    c.eqM(e.P0, P0, "P0");
    SteadyStateKalmanFilterSettings<2> ss;
    c.eqI(ss.maxDAREIterations, 1000, "default iterations");
    ss.load(f.path, verbose, ns);
    c.eqM(ss.x0, x0, "x0");
    c.eqI(ss.maxDAREIterations, it ? 321 : 1000, "maxDAREIterations");
    StateObserverSettings<1, 2> o;
    o.load(f.path, verbose, ns);
    c.eqM(o.C, Eigen::RowVector2d(0, 7), "C");
    c.eqM(o.Q, Q, "Q");
    c.eqM(o.dFdv, D, "dFdv");
    c.eq(o.R(0, 0), 9, "R");
}
