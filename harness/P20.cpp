// P20: assembly of nonlinear programs (blocks, bounds, sparsity, variables, multipliers) as seen by the NLP solver
// MC_LIBS: -lipopt -llapack -lblas
#include <ct/optcon/optcon.h>
#include <map>
#include "mc.h"
#include "mc_file.h"
using namespace ct::optcon;
typedef Eigen::VectorXd V;
typedef Eigen::VectorXi VI;
typedef Eigen::MatrixXd M;

// ---- constraint blocks: c_i(x) = a_i.x + 1/2 x'H_i x + b_i with sparsity of its own
struct Vars
{
    std::shared_ptr<ct::optcon::OptVector> o;
    const V& x() const { return o->getOptimizationVars(); }
};
struct Block : public DiscreteConstraintBase
{
    int type, salt;
    bool fullHessian;
    std::shared_ptr<ct::optcon::OptVector> o;
    Block(int t, int s, bool f, std::shared_ptr<ct::optcon::OptVector> ov) : type(t), salt(s), fullHessian(f), o(ov) {}
    static const int TYPES = 6;  // 5: a row that depends on nothing
    int n() const { return o->size(); }
    int rows() const { return type == 0 ? 0 : (type == 1 || type == 3 || type == 5) ? 1 : 2; }
    // dense truth
    double value(int i, const V& x) const
    {
        switch (type)
        {
            case 1: return 2 * x(0) + salt;
            case 5: return salt + 0.5;
            case 2: return (salt + 1) * x(n() - 2 + i) * x(n() - 2 + i);
            case 3: return salt + 3 * x(0) * x(1) + (n() > 2 ? x(2) : 0.0);
            default: return i == 0 ? x(0) + salt * x(1) + x(n() - 2) : x(0) * x(1) - 4 * x(n() - 1);
        }
    }
    M jac(const V& x) const
    {
        M J = M::Zero(rows(), n());
        for (int i = 0; i < rows(); i++)
            switch (type)
            {
                case 1: J(0, 0) = 2; break;
                case 5: break;
                case 2: J(i, n() - 2 + i) = 2 * (salt + 1) * x(n() - 2 + i); break;
                case 3:
                    J(0, 0) = 3 * x(1);
                    J(0, 1) = 3 * x(0);
                    if (n() > 2)
                        J(0, 2) = 1;
                    break;
                default:
                    if (i == 0)
                    {
                        J(0, 0) += 1;
                        J(0, 1) += salt;
                        J(0, n() - 2) += 1;
                    }
                    else
                    {
                        J(1, 0) += x(1);
                        J(1, 1) += x(0);
                        J(1, n() - 1) += -4;
                    }
            }
        return J;
    }
    M hess(int i) const
    {
        M H = M::Zero(n(), n());
        if (type == 2)
            H(n() - 2 + i, n() - 2 + i) = 2 * (salt + 1);
        if (type == 3)
            H(0, 1) = H(1, 0) = 3;
        if (type == 4 && i == 1)
            H(0, 1) = H(1, 0) = 1;
        return H;
    }
    // implementation as a user would write it
    V eval() override
    {
        V r(rows());
        for (int i = 0; i < rows(); i++)
            r(i) = value(i, o->getOptimizationVars());
        return r;
    }
    size_t getConstraintSize() override { return rows(); }
    size_t getNumNonZerosJacobian() override { return type == 0 || type == 5 ? 0 : type == 1 ? 1 : type == 2 ? 2 : type == 3 ? n() : 6; }
    void genSparsityPattern(VI& r, VI& cc) override
    {
        if (type == 1)
            genBlockIndices(0, 1, 1, r, cc, 0);
        if (type == 2)
            genDiagonalIndices(n() - 2, 2, r, cc, 0);
        if (type == 3)
            genBlockIndices(0, 1, n(), r, cc, 0);
        if (type == 4)
        {
            size_t k = genBlockIndices(0, 2, 2, r, cc, 0);
            k += genDiagonalIndices(n() - 2, 2, r, cc, k);
        }
    }
    V evalSparseJacobian() override
    {
        const V& x = o->getOptimizationVars();
        V v(getNumNonZerosJacobian());
        if (type == 1)
            v << 2;
        if (type == 2)
            v << 2 * (salt + 1) * x(n() - 2), 2 * (salt + 1) * x(n() - 1);
        if (type == 3)
        {
            v.setZero();
            v(0) = 3 * x(1);
            v(1) = 3 * x(0);
            if (n() > 2)
                v(2) = 1;
        }
        if (type == 4)
            v << 1, salt, x(1), x(0), 1, -4;
        return v;
    }
    std::vector<std::pair<int, int>> hpat() const
    {
        if (type == 2)
            return {{n() - 2, n() - 2}, {n() - 1, n() - 1}};
        if (type == 3 || type == 4)
            return fullHessian ? std::vector<std::pair<int, int>>{{0, 1}, {1, 0}} : std::vector<std::pair<int, int>>{{1, 0}};
        return {};
    }
    void genSparsityPatternHessian(VI& r, VI& cc) override
    {
        auto p = hpat();
        r.resize(p.size());
        cc.resize(p.size());
        for (size_t i = 0; i < p.size(); i++)
        {
            r(i) = p[i].first;
            cc(i) = p[i].second;
        }
    }
    void sparseHessianValues(const V&, const V& lam, V& h) override
    {
        auto p = hpat();
        h.resize(p.size());
        for (size_t k = 0; k < p.size(); k++)
        {
            h(k) = 0;
            for (int i = 0; i < rows(); i++)
                h(k) += lam(i) * hess(i)(p[k].first, p[k].second);
        }
    }
    V lb() const
    {
        V b(rows());
        for (int i = 0; i < rows(); i++)
            b(i) = -10 * (type + 1) - salt - i;
        return b;
    }
    V ub() const
    {
        V b(rows());
        for (int i = 0; i < rows(); i++)
            b(i) = 100 * (type + 1) + salt + i;
        return b;
    }
    V getLowerBound() override { return lb(); }
    V getUpperBound() override { return ub(); }
};
struct Cost : public tpl::DiscreteCostEvaluatorBase<double>
{
    std::shared_ptr<ct::optcon::OptVector> o;
    bool fullHessian;
    Cost(std::shared_ptr<ct::optcon::OptVector> ov, bool f) : o(ov), fullHessian(f) {}
    M H() const
    {
        int n = o->size();
        M h = M::Zero(n, n);
        for (int i = 0; i < n; i++)
            h(i, i) = i + 1;
        h(0, n - 1) = h(n - 1, 0) = 0.5;
        return h;
    }
    V g() const { return V::LinSpaced(o->size(), -1, 1); }
    double value(const V& x) const { return 0.5 * x.dot(H() * x) + g().dot(x); }
    double eval() override { return value(o->getOptimizationVars()); }
    void evalGradient(size_t n, Eigen::Map<V>& grad) override { grad = H() * o->getOptimizationVars() + g(); }
    std::vector<std::pair<int, int>> pat() const
    {
        int n = o->size();
        std::vector<std::pair<int, int>> p;
        for (int j = n - 1; j >= 0; j--)
            p.push_back({j, j});
        p.push_back({n - 1, 0});
        if (fullHessian)
            p.push_back({0, n - 1});
        return p;
    }
    void getSparsityPatternHessian(VI& r, VI& cc) override
    {
        auto p = pat();
        r.resize(p.size());
        cc.resize(p.size());
        for (size_t i = 0; i < p.size(); i++)
        {
            r(i) = p[i].first;
            cc(i) = p[i].second;
        }
    }
    void sparseHessianValues(const V&, const V& om, V& h) override
    {
        auto p = pat();
        h.resize(p.size());
        for (size_t i = 0; i < p.size(); i++)
            h(i) = om(0) * H()(p[i].first, p[i].second);
    }
};
struct Cons : public DiscreteConstraintContainerBase
{
    int prep = 0, prepJ = 0;
    void prepareEvaluation() override { prep++; }
    void prepareJacobianEvaluation() override { prepJ++; }
    void add(std::shared_ptr<Block> b) { constraints_.push_back(b); }
    void drop() { constraints_.pop_back(); }
};
struct TestNlp : public ct::optcon::Nlp
{
    std::shared_ptr<Cons> cons;
    std::vector<std::shared_ptr<Block>> blocks;
    std::shared_ptr<Cost> cost;
    std::shared_ptr<ct::optcon::OptVector> vars;
    int updates = 0;
    TestNlp(int n, bool full)
    {
        vars = std::make_shared<ct::optcon::OptVector>(n);
        cost = std::make_shared<Cost>(vars, full);
        cons = std::make_shared<Cons>();
        optVariables_ = vars;
        costEvaluator_ = cost;
        constraints_ = cons;
    }
    void add(int type, bool full)
    {
        auto b = std::make_shared<Block>(type, (int)blocks.size(), full, vars);
        blocks.push_back(b);
        cons->add(b);
    }
    void updateProblem() override { updates++; }
};
struct EmptyNlp : public ct::optcon::Nlp
{
    void updateProblem() override {}
};
struct Ip : public ct::optcon::tpl::IpoptSolver<double>
{
    using ct::optcon::tpl::IpoptSolver<double>::IpoptSolver;
    void attach(std::shared_ptr<ct::optcon::Nlp> n) { this->nlp_ = n; }
};
static NlpSolverSettings quietSettings(bool exact)
{
    NlpSolverSettings s;
    s.ipoptSettings_.printLevel_ = 0;
    s.ipoptSettings_.hessian_approximation_ = exact ? "exact" : "limited-memory";
    return s;
}
// everything the NLP solver sees at x, against the list of blocks
static void look(mc::Ctx& c, TestNlp& nlp, Ip& ip, const V& x, bool exact, bool fresh)
{
    int n = nlp.vars->size();
    std::vector<double> g, lo, hi;
    M J(0, n);
    std::vector<M> Hs;
    int nnz = 0;
    for (auto& b : nlp.blocks)
    {
        M Jb = b->jac(x);
        M Jn(J.rows() + Jb.rows(), n);
        Jn << J, Jb;
        J = Jn;
        for (int i = 0; i < b->rows(); i++)
        {
            g.push_back(b->value(i, x));
            lo.push_back(b->lb()(i));
            hi.push_back(b->ub()(i));
            Hs.push_back(b->hess(i));
        }
        nnz += b->getNumNonZerosJacobian();
    }
    int gn = -1, gm = -1, gz = -1, gh = -1;
    Ipopt::TNLP::IndexStyleEnum style = Ipopt::TNLP::FORTRAN_STYLE;
    c.check(ip.get_nlp_info(gn, gm, gz, gh, style), "nlp info");
    c.eqI(style, Ipopt::TNLP::C_STYLE, "index style");
    c.eqI(gn, n, "number of variables");
    c.eqI(gm, g.size(), "number of constraints");
    c.eqI(gz, nnz, "number of Jacobian entries");
    c.eqI(nlp.getConstraintsCount(), g.size(), "constraint count");
    V xl(n), xu(n), gl(gm), gu(gm);
    c.check(ip.get_bounds_info(n, xl.data(), xu.data(), gm, gl.data(), gu.data()), "bounds");
    for (int i = 0; i < gm; i++)
    {
        c.eq(gl(i), lo[i], "lower constraint bound");
        c.eq(gu(i), hi[i], "upper constraint bound");
    }
    double f = 0;
    int up = nlp.updates;
    size_t cnt = nlp.vars->getUpdateCount();
    ip.eval_f(n, x.data(), fresh, f);
    c.eq(f, nlp.cost->value(x), "cost");
    c.eqI(nlp.updates, up + (fresh ? 1 : 0), "problem updates");
    c.eqI(nlp.vars->getUpdateCount(), cnt + (fresh ? 1 : 0), "update counter");
    V gr = V::Constant(n, 99), gv = V::Constant(gm, 99), jv = V::Constant(nnz, 99);
    ip.eval_grad_f(n, x.data(), false, gr.data());
    c.eqM(gr, V(nlp.cost->H() * x + nlp.cost->g()), "cost gradient");
    ip.eval_g(n, x.data(), false, gm, gv.data());
    for (int i = 0; i < gm; i++)
        c.eq(gv(i), g[i], "constraint value");
    VI r = VI::Constant(nnz, -7), cc = VI::Constant(nnz, -7);
    ip.eval_jac_g(n, nullptr, false, gm, nnz, r.data(), cc.data(), nullptr);
    ip.eval_jac_g(n, x.data(), false, gm, nnz, nullptr, nullptr, jv.data());
    M Jg = M::Zero(gm, n);
    for (int k = 0; k < nnz; k++)
    {
        c.check(r(k) >= 0 && r(k) < gm && cc(k) >= 0 && cc(k) < n, "Jacobian index in range");
        Jg(r(k), cc(k)) += jv(k);
    }
    c.eqM(Jg, J, "constraint Jacobian");
    // row ranges in block order
    int row = 0, ent = 0;
    for (auto& b : nlp.blocks)
    {
        for (size_t k = 0; k < b->getNumNonZerosJacobian(); k++, ent++)
            c.check(r(ent) >= row && r(ent) < row + b->rows(), "row range of the block");
        row += b->rows();
    }
    if (exact)
    {
        V lam(gm), hv;
        for (int i = 0; i < gm; i++)
            lam(i) = 0.5 + i;
        M H = 2.5 * nlp.cost->H();
        for (int i = 0; i < gm; i++)
            H += lam(i) * Hs[i];
        M L = H.triangularView<Eigen::Lower>();
        VI hr = VI::Constant(gh, -7), hc = VI::Constant(gh, -7);
        hv = V::Constant(gh, 99);
        ip.eval_h(n, nullptr, false, 0, gm, nullptr, false, gh, hr.data(), hc.data(), nullptr);
        ip.eval_h(n, x.data(), false, 2.5, gm, lam.data(), true, gh, nullptr, nullptr, hv.data());
        M Hg = M::Zero(n, n);
        std::map<std::pair<int, int>, int> seen;
        for (int k = 0; k < gh; k++)
        {
            c.check(hr(k) >= 0 && hr(k) < n && hc(k) >= 0 && hc(k) <= hr(k), "Hessian index in the lower triangle");
            c.check(seen[{hr(k), hc(k)}]++ == 0, "Hessian entry listed once");
            Hg(hr(k), hc(k)) += hv(k);
        }
        c.eqM(Hg, L, "Hessian of the Lagrangian");
    }
    c.step(8);
    c.state(mc::mix(gm * 100 + nnz, gh));
}
// constructing the IPOPT application is expensive: one per process and Hessian mode
static Ip& shared(std::shared_ptr<TestNlp> nlp, bool exact)
{
    static Ip* ip[2] = {nullptr, nullptr};
    if (!ip[exact])
        ip[exact] = new Ip(nlp, quietSettings(exact));
    ip[exact]->attach(nlp);
    return *ip[exact];
}
static V pickX(mc::Ctx& c, int n)
{
    V x(n);
    double s = c.pick<double>({1.0, -0.5});
    for (int i = 0; i < n; i++)
        x(i) = s * (i + 1) + 0.25;
    return x;
}
MC_SUITE(blocks, "all sequences of <=3 blocks of 6 kinds (0..2 rows, one without Jacobian entries), 2..3 variables, then every block replaced, appended or removed: everything the NLP solver sees")
{
    mc::Quiet q;
    int n = 2 + c.choose(2);
    bool full = c.flip(), exact = c.flip();
    auto nlp = std::make_shared<TestNlp>(n, full);
    int k = c.choose(4);
    c.log() << n << " variables, blocks:";
    for (int i = 0; i < k; i++)
    {
        int t = c.choose(Block::TYPES);
        c.log() << " " << t;
        nlp->add(t, full);
    }
    Ip& ip = shared(nlp, exact);
    look(c, *nlp, ip, pickX(c, n), exact, true);
    int e = c.choose(k + 2);
    if (e < k)
    {
        int t = c.choose(Block::TYPES);
        c.log() << "; block " << e << " becomes " << t;
        nlp->blocks[e]->type = t;
    }
    else if (e == k)
    {
        int t = c.choose(Block::TYPES);
        c.log() << "; append " << t;
        nlp->add(t, full);
    }
    else if (k > 0)
    {
        c.log() << "; drop last";
        nlp->cons->drop();
        nlp->blocks.pop_back();
    }
    look(c, *nlp, ip, nlp->vars->getOptimizationVars(), exact, false);
}

MC_SUITE(variables, "all histories of 4 operations on the variables through the NLP interface (evaluate with and without new iterate, bounds, guess, solution, multipliers, zero, resize), 1..3 variables")
{
    mc::Quiet q;
    int n = 2 + c.choose(2), m = 2;
    auto nlp = std::make_shared<TestNlp>(n, false);
    nlp->add(2, false);
    auto& o = *nlp->vars;
    o.resizeConstraintVars(m);
    Ip& ip = shared(nlp, false);
    V x = V::Zero(n), guess, lo = V::Constant(n, std::numeric_limits<double>::lowest()), hi = V::Constant(n, std::numeric_limits<double>::max()), zl = V::Zero(n),
      zu = V::Zero(n), lam = V::Zero(m), xm = V::Zero(n), zm = V::Zero(m + 1);
    VI xs = VI::Zero(n), zs = VI::Zero(m + 1);
    bool haveGuess = false;
    size_t cnt = 0;
    int tag = 0;
    auto vec = [&](int len) {
        V v(len);
        for (int i = 0; i < len; i++)
            v(i) = ++tag;
        return v;
    };
    for (int d = 0; d < 4; d++)
    {
        switch (c.choose(10))
        {
            case 0:
            {
                V y = vec(n);
                double f;
                bool isNew = c.flip();
                c.log() << "eval(new=" << isNew << ") ";
                ip.eval_f(n, y.data(), isNew, f);
                if (isNew)
                {
                    x = y;
                    cnt++;
                }
                c.eq(f, nlp->cost->value(x), "cost of the current iterate");
                break;
            }
            case 1:
                c.log() << "bounds ";
                lo = -vec(n);
                hi = vec(n);
                o.setBounds(lo, hi);
                break;
            case 2:
                c.log() << "guess ";
                guess = x = vec(n);
                haveGuess = true;
                o.setInitialGuess(guess);
                break;
            case 3:
                c.log() << "solution ";
                x = vec(n);
                zl = vec(n);
                zu = vec(n);
                lam = vec(m);
                ip.finalize_solution(Ipopt::SUCCESS, n, x.data(), zl.data(), zu.data(), m, nullptr, lam.data(), 0, nullptr, nullptr);
                break;
            case 4:
            {
                c.log() << "snopt solution ";
                x = vec(n);
                xm = vec(n);
                zm = vec(m + 1);
                xs = VI::Constant(n, ++tag);
                zs = VI::Constant(m + 1, ++tag);
                Eigen::Map<V> a(x.data(), n), b(xm.data(), n), e(zm.data(), m + 1);
                Eigen::Map<VI> f(xs.data(), n), g(zs.data(), m + 1);
                nlp->extractSnoptSolution(a, b, f, e, g);
                break;
            }
            case 5:
                c.log() << "zero ";
                o.setZero();
                x.setZero();
                guess = V::Zero(n);
                haveGuess = true;
                zl.setZero();
                zu.setZero();
                lam.setZero();
                break;
            case 6:
            {
                int nn = 2 + c.choose(2);
                c.log() << "resize(" << nn << ") ";
                o.resizeOptimizationVars(nn);
                c.eqI(o.size(), nn, "size after resizing");
                if (nn != n)  // contents are set anew by the user
                {
                    n = nn;
                    o.setZero();
                    x = guess = zl = zu = V::Zero(n);
                    lam.setZero();
                    haveGuess = true;
                    lo = -vec(n);
                    hi = vec(n);
                    o.setBounds(lo, hi);
                    xm = V::Zero(n);
                    xs = VI::Zero(n);
                    Eigen::Map<V> a(x.data(), n), b(xm.data(), n), e(zm.data(), m + 1);
                    Eigen::Map<VI> f(xs.data(), n), g(zs.data(), m + 1);
                    nlp->extractSnoptSolution(a, b, f, e, g);
                }
                break;
            }
            case 7:
                c.log() << "reset ";
                o.reset();
                cnt = 0;
                break;
            case 8:
                c.log() << "resizeConstraints ";
                o.resizeConstraintVars(m);
                zm.setZero();
                zs.setZero();
                lam.setZero();
                break;
            default:
            {
                c.log() << "setOptimizationVars ";
                x = vec(n);
                o.setOptimizationVars(x);
                cnt++;
            }
        }
        c.step();
        c.eqI(nlp->getVarCount(), n, "variable count");
        c.check(o.checkOptimizationVarDimension(n) && !o.checkOptimizationVarDimension(n + 1), "dimension check");
        c.eqM(o.getOptimizationVars(), x, "iterate");
        V y(n), y2(n);
        Eigen::Map<V> my(y.data(), n), my2(y2.data(), n);
        o.getOptimizationVars(n, my);
        c.eqM(y, x, "iterate (mapped)");
        c.eqI(o.getUpdateCount(), cnt, "update counter");
        V gl(m), gu(m);
        ip.get_bounds_info(n, y.data(), y2.data(), m, gl.data(), gu.data());
        c.eqM(y, lo, "lower bounds");
        c.eqM(y2, hi, "upper bounds");
        V sx = V::Constant(n, -5), sl = sx, su = sx, slam = V::Constant(m, -5);
        bool ix = haveGuess;
        ip.get_starting_point(n, ix, sx.data(), true, sl.data(), su.data(), m, true, slam.data());
        if (ix)
            c.eqM(sx, guess, "initial guess");
        c.eqM(sl, zl, "lower bound multipliers");
        c.eqM(su, zu, "upper bound multipliers");
        c.eqM(slam, lam, "constraint multipliers");
        V am(n), az(m + 1);
        VI as(n), azs(m + 1);
        Eigen::Map<V> pam(am.data(), n), paz(az.data(), m + 1);
        Eigen::Map<VI> pas(as.data(), n), pazs(azs.data(), m + 1);
        nlp->getOptimizationMultState(n, pam, pas);
        nlp->getConstraintsMultState(m + 1, paz, pazs);
        c.eqM(am, xm, "variable multipliers");
        c.eqM(az, zm, "constraint multipliers (snopt)");
        c.eqM(as.cast<double>(), xs.cast<double>(), "variable states");
        c.eqM(azs.cast<double>(), zs.cast<double>(), "constraint states");
        c.state(mc::mix(c.hist, n));
    }
}

MC_SUITE(missing_parts, "every query of a program without its cost, constraints or variables is refused")
{
    EmptyNlp e;
    V v(1);
    VI i(1);
    Eigen::Map<V> a(v.data(), 1), b(v.data(), 1);
    Eigen::Map<const V> ca(v.data(), 1);
    Eigen::Map<VI> ia(i.data(), 1), ib(i.data(), 1);
    std::vector<std::function<void()>> f = {[&]() { e.evaluateCostFun(); }, [&]() { e.evaluateCostGradient(1, a); }, [&]() { e.evaluateConstraints(a); },
        [&]() { e.evaluateConstraintJacobian(1, a); }, [&]() { e.getSparsityPatternJacobian(1, ia, ib); }, [&]() { e.getConstraintsCount(); }, [&]() { e.getNonZeroJacobianCount(); },
        [&]() { e.getConstraintBounds(a, b, 1); }, [&]() { e.getVarCount(); }, [&]() { e.getVariableBounds(a, b, 1); }, [&]() { e.extractOptimizationVars(ca, true); },
        [&]() { e.getInitialGuess(1, a); }, [&]() { e.getOptimizationMultState(1, a, ia); }, [&]() { e.getConstraintsMultState(1, a, ia); }, [&]() { e.getBoundMultipliers(1, a, b); },
        [&]() { e.getLambdaVars(1, a); }, [&]() { e.extractIpoptSolution(ca, ca, ca, ca); }, [&]() { e.extractSnoptSolution(a, a, ia, a, ia); }};
    auto g = c.pick(f);
    c.step();
    c.throws([&]() { g(); }, "query of an incomplete program");
}

// ---- whole solves of box/linearly constrained strictly convex QPs: solution by enumeration of active sets
struct QpNlp : public ct::optcon::Nlp
{
    struct C : public tpl::DiscreteCostEvaluatorBase<double>
    {
        QpNlp* p;
        double eval() override { return 0.5 * p->x().dot(p->H * p->x()) + p->g.dot(p->x()); }
        void evalGradient(size_t, Eigen::Map<V>& gr) override { gr = p->H * p->x() + p->g; }
        void getSparsityPatternHessian(VI& r, VI& cc) override
        {
            r.resize(4);
            cc.resize(4);
            r << 0, 0, 1, 1;
            cc << 0, 1, 0, 1;
        }
        void sparseHessianValues(const V&, const V& om, V& h) override
        {
            h.resize(4);
            h << p->H(0, 0), p->H(0, 1), p->H(1, 0), p->H(1, 1);
            h *= om(0);
        }
    };
    struct K : public DiscreteConstraintBase
    {
        QpNlp* p;
        V eval() override { return V::Constant(1, p->a.dot(p->x())); }
        V evalSparseJacobian() override { return p->a; }
        size_t getConstraintSize() override { return 1; }
        size_t getNumNonZerosJacobian() override { return 2; }
        void genSparsityPattern(VI& r, VI& cc) override { genBlockIndices(0, 1, 2, r, cc, 0); }
        void genSparsityPatternHessian(VI& r, VI& cc) override
        {
            r.resize(0);
            cc.resize(0);
        }
        void sparseHessianValues(const V&, const V&, V& h) override { h.resize(0); }
        V getLowerBound() override { return V::Constant(1, p->bl); }
        V getUpperBound() override { return V::Constant(1, p->bu); }
    };
    struct CC : public DiscreteConstraintContainerBase
    {
        void prepareEvaluation() override {}
        void prepareJacobianEvaluation() override {}
        void add(std::shared_ptr<DiscreteConstraintBase> b) { constraints_.push_back(b); }
    };
    M H = M::Zero(2, 2);
    V g = V::Zero(2), a = V::Zero(2), lo = V::Zero(2), hi = V::Zero(2);
    double bl, bu;
    const V& x() const { return optVariables_->getOptimizationVars(); }
    std::shared_ptr<ct::optcon::OptVector> vars() { return optVariables_; }
    void updateProblem() override {}
    void build(bool con)
    {
        optVariables_ = std::make_shared<ct::optcon::OptVector>(2);
        auto co = std::make_shared<C>();
        co->p = this;
        costEvaluator_ = co;
        auto cs = std::make_shared<CC>();
        if (con)
        {
            auto k = std::make_shared<K>();
            k->p = this;
            cs->add(k);
        }
        constraints_ = cs;
        optVariables_->resizeConstraintVars(con ? 1 : 0);
    }
    V solution(bool con) const
    {
        // active set of each variable (free/lower/upper) and of the constraint (free/lower/upper); unique KKT point
        V best;
        double bestf = 1e300;
        for (int s = 0; s < 27; s++)
        {
            int s0 = s % 3, s1 = (s / 3) % 3, sc = s / 9;
            if (!con && sc)
                continue;
            std::vector<V> A;
            std::vector<double> b;
            int st[2] = {s0, s1};
            for (int i = 0; i < 2; i++)
                if (st[i])
                {
                    V e = V::Zero(2);
                    e(i) = 1;
                    A.push_back(e);
                    b.push_back(st[i] == 1 ? lo(i) : hi(i));
                }
            if (sc)
            {
                A.push_back(a);
                b.push_back(sc == 1 ? bl : bu);
            }
            int na = A.size();
            if (na > 2)
                continue;
            M KK = M::Zero(2 + na, 2 + na);
            V r(2 + na);
            KK.topLeftCorner(2, 2) = H;
            r.head(2) = -g;
            for (int i = 0; i < na; i++)
            {
                KK.block(0, 2 + i, 2, 1) = A[i];
                KK.block(2 + i, 0, 1, 2) = A[i].transpose();
                r(2 + i) = b[i];
            }
            Eigen::FullPivLU<M> lu(KK);
            if (!lu.isInvertible())
                continue;
            V y = lu.solve(r).head(2);
            bool ok = true;
            for (int i = 0; i < 2; i++)
                ok = ok && y(i) >= lo(i) - 1e-9 && y(i) <= hi(i) + 1e-9;
            if (con)
                ok = ok && a.dot(y) >= bl - 1e-9 && a.dot(y) <= bu + 1e-9;
            double f = 0.5 * y.dot(H * y) + g.dot(y);
            if (ok && f < bestf - 1e-12)
            {
                bestf = f;
                best = y;
            }
        }
        return best;
    }
};
MC_SUITE(qp_solves, "64 tables of strictly convex 2-variable QPs with box and linear constraints x Hessian mode x reconfiguration/warm start between two IPOPT solves")
{
    mc::Quiet q;
    auto nlp = std::make_shared<QpNlp>();
    bool con = c.flip();
    nlp->build(con);
    double h = c.pick<double>({0.0, 0.5});
    nlp->H << 2, h, h, 1;
    nlp->a << 1, c.pick<double>({1.0, -2.0});
    auto data = [&](int k) {
        nlp->g << (k ? 3.0 : -3.0), 0.5;
        nlp->lo << -1, -2;
        nlp->hi << (k ? 5.0 : 0.5), 2;
        nlp->bl = k ? -0.5 : 0.25;
        nlp->bu = k ? 3.0 : 0.25;
        nlp->vars()->setBounds(nlp->lo, nlp->hi);
    };
    bool exact = c.flip();
    int d0 = c.choose(2);
    data(d0);
    V g0(2);
    g0 << 0.1, -0.2;
    nlp->vars()->setInitialGuess(g0);
    Ip ip(nlp, quietSettings(exact));
    bool early = c.flip();  // warm start before any solution exists
    if (early)
        ip.prepareWarmStart(200);
    for (int r = 0; r < 2; r++)
    {
        c.log() << "solve(data " << d0 << ", exact=" << exact << ", constraint=" << con << ") ";
        bool ok = ip.solve();
        c.step();
        c.check(ok, "IPOPT solves a strictly convex QP");
        c.eqM(nlp->x(), nlp->solution(con), "QP solution", 2e-4);
        if (r == 0)
        {
            if (c.flip())
            {
                bool ex = exact;
                exact = c.flip();
                ip.configure(quietSettings(exact));
                c.log() << "configure(" << ex << "->" << exact << ") ";
            }
            int w = c.choose(2);
            if (w)
            {
                ip.prepareWarmStart(200);
                nlp->vars()->setInitialGuess(V(nlp->x()));
                c.log() << "warm ";
            }
            d0 = c.choose(2);
            data(d0);
        }
    }
    c.state(mc::hd(nlp->x()(0)));
}
