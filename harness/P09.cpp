// P09: activations
#include <boost/property_tree/ptree.hpp>
#include <boost/property_tree/info_parser.hpp>
#include <ct/core/core.h>
#include "mc.h"
#include "mc_file.h"
using namespace ct::core;
typedef tpl::ActivationBase<double> Act;

// one parameterised activation and its documented meaning
struct Par
{
    int kind = 0;  // 0 single, 1 periodic, 2 linear, 3 rbf, 4 barrier
    double p[6] = {0, 0, 0, 0, 0, 0};
    bool hasEnd = false;            // periodic: end time given (file only)
    bool hasUb = true, hasLb = true;  // barrier
    std::string str() const
    {
        std::ostringstream o;
        static const char* n[] = {"single", "periodic", "linear", "rbf", "barrier"};
        o << n[kind] << "(";
        for (double d : p)
            o << d << " ";
        o << (kind == 1 && hasEnd ? "end" : "") << (kind == 4 ? (hasUb ? "U" : "") : "") << (kind == 4 ? (hasLb ? "L" : "") : "") << ")";
        return o.str();
    }
    std::string file() const
    {
        using mc::num;
        std::ostringstream o;
        o << "other\n{\n t_on 77\n t_off 78\n mu 9\n sigma 9\n}\n"
          << "act\n{\n";
        if (kind == 0 || kind == 2)
            o << "t_on " << num(p[0]) << "\nt_off " << num(p[1]) << "\n";
        if (kind == 2)
            o << "slope " << num(p[2]) << "\nstartVal " << num(p[3]) << "\n";
        if (kind == 1)
            o << "active_percentage " << num(p[0]) << "\nperiod " << num(p[1]) << "\nactivation_offset " << num(p[2])
              << "\nperiod_offset " << num(p[3]) << "\nt_end " << num(hasEnd ? p[4] : 1e9) << "\n";
        if (kind == 3)
            o << "mu " << num(p[0]) << "\nsigma " << num(p[1]) << "\n";
        if (kind == 4)
        {
            o << "alpha " << num(p[2]) << "\n";
            if (hasUb)
                o << "upper_bound " << num(p[0]) << "\n";
            if (hasLb)
                o << "lower_bound " << num(p[1]) << "\n";
        }
        o << "}\n";
        return o.str();
    }
    bool fileValid() const
    {
        if (kind == 1)
            return !(p[2] + p[0] * p[1] > p[1]);
        if (kind == 4)
            return p[2] >= 0 && !(hasUb && hasLb && p[1] > p[0]);
        return true;
    }
    bool active(double t) const
    {
        if (kind == 0 || kind == 2)
            return t >= p[0] && t < p[1];
        if (kind == 1)
        {
            if (t < p[3] || (hasEnd && t >= p[4]))
                return false;
            // phase within the current period, from integer arithmetic on the period count
            double r = t - p[3];
            long n = (long)std::floor(r / p[1]);
            double ph = r - n * p[1];
            return ph >= p[2] && ph < p[2] + p[0] * p[1];
        }
        return true;
    }
    double value(double t) const
    {
        if (kind == 2)
            return p[3] + p[2] * (t - p[0]);
        if (kind == 3)
            return std::exp(-0.5 * std::pow((t - p[0]) / p[1], 2)) / (p[1] * std::sqrt(2 * M_PI));
        if (kind == 4)
            return (hasUb ? std::exp(p[2] * (t - p[0])) : 0) + (hasLb ? std::exp(p[2] * (p[1] - t)) : 0);
        return 1.0;
    }
    double d1(double t) const { return p[2] * ((hasUb ? std::exp(p[2] * (t - p[0])) : 0) - (hasLb ? std::exp(p[2] * (p[1] - t)) : 0)); }
    double d2(double t) const { return p[2] * p[2] * value(t); }
    std::vector<double> times() const
    {
        std::vector<double> v;
        if (kind == 1)
            for (int i = -12; i <= 44; i++)
                v.push_back(i / 8.0);
        for (double b : {p[0], p[1], p[2], p[3], p[4], p[3] + p[2], p[3] + p[2] + p[0] * p[1], p[3] + p[1]})
            for (double e : {-1.0, -1e-6, 0.0, 1e-6, 0.37})
                v.push_back(b + e);
        for (double t : {-100.0, 100.0})
            if (kind != 4)
                v.push_back(t);
        return v;
    }
};

static std::shared_ptr<Act> construct(const Par& q)
{
    const double* p = q.p;
    switch (q.kind)
    {
        case 0: return std::make_shared<SingleActivation>(p[0], p[1]);
        case 1: return std::make_shared<PeriodicActivation>(p[0], p[1], p[2], p[3]);
        case 2: return std::make_shared<LinearActivation>(p[0], p[1], p[2], p[3]);
        case 3: return std::make_shared<RBFGaussActivation>(p[0], p[1]);
    }
    if (q.hasUb && q.hasLb)
        return std::make_shared<BarrierActivation>(p[0], p[1], p[2]);
    auto b = std::make_shared<BarrierActivation>(5.0, -5.0, 3.0);
    if (q.hasUb)
        b->setUpperBoundOnly(p[0], p[2]);
    else
        b->setLowerBoundOnly(p[1], p[2]);
    return b;
}
static std::shared_ptr<Act> empty(int kind)
{
    switch (kind)
    {
        case 0: return std::make_shared<SingleActivation>();
        case 1: return std::make_shared<PeriodicActivation>();
        case 2: return std::make_shared<LinearActivation>();
        case 3: return std::make_shared<RBFGaussActivation>();
    }
    return std::make_shared<BarrierActivation>();
}
static std::shared_ptr<Act> copyOf(const std::shared_ptr<Act>& a, int kind)
{
    switch (kind)
    {
        case 0: return std::make_shared<SingleActivation>(*std::static_pointer_cast<SingleActivation>(a));
        case 1: return std::make_shared<PeriodicActivation>(*std::static_pointer_cast<PeriodicActivation>(a));
        case 2: return std::make_shared<LinearActivation>(*std::static_pointer_cast<LinearActivation>(a));
        case 3: return std::make_shared<RBFGaussActivation>(*std::static_pointer_cast<RBFGaussActivation>(a));
    }
    return std::make_shared<BarrierActivation>(*std::static_pointer_cast<BarrierActivation>(a));
}

static void judge(mc::Ctx& c, Act& a, const Par& q, double t)
{
    c.step();
    bool act = a.isActive(t);
    if (act != q.active(t))
    {
        std::ostringstream o;
        o << "isActive(" << t << ") of " << q.str() << " is " << act;
        c.fail(o.str());
    }
    if (act)
        c.eq(a.computeActivation(t), q.value(t), ("value of " + q.str() + " at " + std::to_string(t)).c_str(), 1e-10);
    if (q.kind == 4)
    {
        c.eq(a.firstOrderDerivative(t), q.d1(t), ("first derivative of " + q.str()).c_str(), 1e-10);
        c.eq(a.secondOrderDerivative(t), q.d2(t), ("second derivative of " + q.str()).c_str(), 1e-10);
    }
}
static void judgeAll(mc::Ctx& c, Act& a, const Par& q)
{
    auto ts = q.times();
    for (double t : ts)
        judge(c, a, q, t);
    for (size_t i = ts.size(); i-- > 0;)
        judge(c, a, q, ts[i]);
}

static Par pickPar(mc::Ctx& c, bool small)
{
    Par q;
    q.kind = c.choose(5);
    if (q.kind == 0)
    {
        q.p[0] = small ? c.pick<double>({0.0, 2.0}) : c.pick<double>({-1.5, 0.0, 0.5, 2.0});
        q.p[1] = small ? c.pick<double>({1.0, 3.0}) : c.pick<double>({-2.0, 0.0, 0.5, 1.0, 3.0});
    }
    else if (q.kind == 1)
    {
        q.p[0] = small ? c.pick<double>({0.25, 1.0}) : c.pick<double>({0.0, 0.25, 0.5, 1.0});
        q.p[1] = small ? 1.0 : c.pick<double>({0.5, 1.0, 2.0});
        q.p[2] = small ? c.pick<double>({0.0, 0.5}) : c.pick<double>({0.0, 0.25, 0.5});
        q.p[3] = small ? c.pick<double>({0.0, 0.5}) : c.pick<double>({0.0, 0.5, -1.0, 3.0});
        q.hasEnd = c.flip();
        if (q.hasEnd)
            q.p[4] = small ? 2.0 : c.pick<double>({1.0, 2.25, 4.0});
    }
    else if (q.kind == 2)
    {
        q.p[0] = small ? 0.5 : c.pick<double>({-1.0, 0.0, 0.5});
        q.p[1] = small ? 2.0 : c.pick<double>({0.0, 2.0});
        q.p[2] = c.pick<double>({0.0, 1.5, -2.0});
        q.p[3] = c.pick<double>({0.0, 1.0, -0.5});
    }
    else if (q.kind == 3)
    {
        q.p[0] = c.pick<double>({0.0, 1.5, -2.0});
        q.p[1] = small ? c.pick<double>({0.5, 2.0}) : c.pick<double>({0.1, 0.5, 1.0, 2.0});
    }
    else
    {
        q.p[0] = small ? 1.0 : c.pick<double>({0.0, 1.0, 2.5});
        q.p[1] = small ? -1.0 : c.pick<double>({-1.0, 0.0, 2.0});
        q.p[2] = small ? c.pick<double>({0.5, -1.0}) : c.pick<double>({0.0, 0.5, 1.0, 3.0, -1.0});
        int m = c.choose(3);
        q.hasUb = m != 1;
        q.hasLb = m != 2;
    }
    return q;
}

MC_SUITE(parameters, "every parameter tuple of the tables x constructor / setter / file / copy x all query times around every breakpoint")
{
    mc::Quiet quiet;
    Par q = pickPar(c, false);
    int how = c.choose(4);  // 0 ctor, 1 file, 2 copy of ctor, 3 copy of file
    c.log() << q.str() << " how " << how;
    std::shared_ptr<Act> a;
    if (how == 1 || how == 3)
    {
        mc::MemFile f(q.file());
        a = empty(q.kind);
        if (!q.fileValid())
        {
            c.throws([&]() { a->loadConfigFile(f.path, "act"); }, ("loading inconsistent " + q.str()).c_str());
            return;
        }
        a->loadConfigFile(f.path, "act");
    }
    else
    {
        if (q.kind == 1 && q.hasEnd)
            c.prune();  // the constructor takes no end time
        a = construct(q);
    }
    if (how >= 2)
        a = copyOf(a, q.kind);
    judgeAll(c, *a, q);
}

MC_SUITE(reload, "all sequences of 3 (quick) / 4 (thorough) operations: load a parameter file, query, copy (and change the original), on an object built either way")
{
    mc::Quiet quiet;
    Par cur = pickPar(c, true);
    if (!cur.fileValid() || (cur.kind == 1 && cur.hasEnd))
        c.prune();
    auto a = construct(cur);
    int D = c.thorough ? 4 : 3;
    for (int i = 0; i < D; i++)
    {
        int op = c.choose(3);
        c.step();
        if (op == 0)
        {
            Par q;
            q.kind = cur.kind;
            int v = c.choose(3);
            switch (q.kind)
            {
                case 0: q.p[0] = v - 1; q.p[1] = 1 + v; break;
                case 1: q.p[0] = 0.5; q.p[1] = 1 + v; q.p[2] = 0.25 * v; q.p[3] = 0.5; q.hasEnd = v != 1; q.p[4] = 4 - v; break;
                case 2: q.p[0] = v; q.p[1] = 3; q.p[2] = v - 1; q.p[3] = 0.5 * v; break;
                case 3: q.p[0] = v; q.p[1] = 0.5 + v; break;
                default: q.p[0] = 2; q.p[1] = 1; q.p[2] = 0.5 + v; q.hasUb = v != 0; q.hasLb = v != 1;
            }
            mc::MemFile f(q.file());
            c.log() << "load " << q.str() << " ";
            a->loadConfigFile(f.path, "act");
            cur = q;
        }
        else if (op == 1)
        {
            double t = c.pick<double>({0.0, 0.6, 2.0});
            c.log() << "query " << t << " ";
            judge(c, *a, cur, t);
        }
        else
        {
            auto b = copyOf(a, cur.kind);
            c.log() << "copy ";
            if (c.flip())
            {
                Par q = cur;
                q.p[0] += 0.25;
                if (q.kind == 1)
                    q.p[0] = 0.125;
                mc::MemFile f(q.file());
                b->loadConfigFile(f.path, "act");
                judgeAll(c, *b, q);
            }
            else
                std::swap(a, b);
        }
        c.state(mc::mix(mc::mix(cur.kind, mc::hd(cur.p[0] + 7 * cur.p[1])), i));
    }
    judgeAll(c, *a, cur);
}

MC_SUITE(missing, "every required key removed from every kind's file: loading is rejected; base activation is always active with value 1")
{
    mc::Quiet quiet;
    Par q = pickPar(c, true);
    if (!q.fileValid())
        c.prune();
    std::string text = q.file();
    std::vector<std::string> lines;
    std::istringstream is(text);
    for (std::string l; std::getline(is, l);)
        lines.push_back(l);
    size_t first = 0;
    for (size_t i = 0; i < lines.size(); i++)
        if (lines[i] == "act")
            first = i + 2;
    size_t nkeys = lines.size() - 1 - first;
    size_t drop = first + c.choose(nkeys);
    std::string key = lines[drop].substr(0, lines[drop].find(' '));
    c.log() << q.str() << " without " << key;
    std::string t2;
    for (size_t i = 0; i < lines.size(); i++)
        if (i != drop)
            t2 += lines[i] + "\n";
    mc::MemFile f(t2);
    auto a = empty(q.kind);
    c.step();
    if (q.kind == 4 && key != "alpha")
    {
        (key == "upper_bound" ? q.hasUb : q.hasLb) = false;
        a->loadConfigFile(f.path, "act");
        judgeAll(c, *a, q);
    }
    else
        c.throws([&]() { a->loadConfigFile(f.path, "act"); }, ("loading " + q.str() + " without " + key).c_str());
    Act base;
    for (double t : {-1e9, -1.0, 0.0, 3.0})
    {
        c.check(base.isActive(t), "base activation active");
        c.eq(base.computeActivation(t), 1.0, "base activation value");
    }
}
