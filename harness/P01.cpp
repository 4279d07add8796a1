// P01: trajectories behave as time-stamped sequences; evaluation is the clamped interpolation of the current contents.
// MC_SHARDS: 8
#include <ct/core/core.h>
#include "mc.h"
using namespace ct::core;
typedef StateVector<2> V;
typedef StateTrajectory<2> Traj;

struct Model
{
    std::vector<double> t, d;
    int type = 0;  // 0 ZOH 1 LIN
};
static V val(double d)
{
    V v;
    v << d, -2.0 * d + 1.0;
    return v;
}
static V modelEval(const Model& m, double q)
{
    if (m.t.size() == 1 || q < m.t.front())
        return val(m.d.front());
    int i = -1;
    for (size_t k = 0; k < m.t.size(); k++)
        if (m.t[k] <= q)
            i = k;
    if (i == (int)m.t.size() - 1)
        return val(m.d.back());
    if (m.type == 0)
        return val(m.d[i]);
    double a = (q - m.t[i]) / (m.t[i + 1] - m.t[i]);
    return V(val(m.d[i]) * (1 - a) + val(m.d[i + 1]) * a);
}
static int modelIndex(const Model& m, double q)
{
    int i = 0;
    for (size_t k = 0; k < m.t.size(); k++)
        if (m.t[k] <= q)
            i = k;
    return i;
}
static void compare(mc::Ctx& c, const Traj& tr, const Model& m, const char* who)
{
    const Traj& ct = tr;
    c.eqI(ct.size(), m.t.size(), who);
    for (size_t i = 0; i < m.t.size(); i++)
    {
        c.eq(ct.getTimeFromIndex(i), m.t[i], "time stamp", 1e-12);
        c.eqM(ct[i], val(m.d[i]), "data point", 1e-12);
        c.eq(ct.getTimeArray()[i], m.t[i], "time array", 1e-12);
        c.eqM(ct.getDataArray()[i], val(m.d[i]), "data array", 1e-12);
    }
    if (m.t.size())
    {
        c.eq(ct.startTime(), m.t.front(), "startTime", 1e-12);
        c.eq(ct.finalTime(), m.t.back(), "finalTime", 1e-12);
        c.eq(ct.duration(), m.t.back() - m.t.front(), "duration", 1e-12);
        c.eqM(ct.front(), val(m.d.front()), "front", 1e-12);
        c.eqM(ct.back(), val(m.d.back()), "back", 1e-12);
    }
}
static uint64_t hashModel(const Model& m)
{
    uint64_t h = m.type + 17;
    for (size_t i = 0; i < m.t.size(); i++)
        h = mc::mix(mc::mix(h, mc::hd(m.t[i])), mc::hd(m.d[i]));
    return h;
}
// query times: before, after, every node, interior points of every interval
static double queryTime(mc::Ctx& c, const Model& m)
{
    size_t n = m.t.size();
    int k = c.choose(2 + n + (n > 1 ? 2 * (n - 1) : 0));
    if (k == 0)
        return m.t.front() - 0.75;
    if (k == 1)
        return m.t.back() + 0.75;
    k -= 2;
    if (k < (int)n)
        return m.t[k];
    k -= n;
    double w = (k % 2) ? 0.25 : 0.75;
    return (1 - w) * m.t[k / 2] + w * m.t[k / 2 + 1];
}
static void doQuery(mc::Ctx& c, Traj& tr, const Model& m)
{
    double q = queryTime(c, m);
    c.log() << "eval(" << q << ") ";
    c.eqM(tr.eval(q), modelEval(m, q), "eval");
    c.step();
}
static void makeInit(Model& m, int which)
{
    static const double T[3][3] = {{0, 0, 0}, {-1.5, 0, 0}, {-0.5, 0.5, 2.0}};
    static const int N[3] = {0, 1, 3};
    for (int i = 0; i < N[which]; i++)
    {
        m.t.push_back(T[which][i]);
        m.d.push_back(1.0 + i * i);
    }
}
static Traj build(const Model& m)
{
    TimeArray t;
    StateVectorArray<2> d;
    for (size_t i = 0; i < m.t.size(); i++)
    {
        t.push_back(m.t[i]);
        d.push_back(val(m.d[i]));
    }
    return Traj(t, d, m.type ? LIN : ZOH);
}

static void editRun(mc::Ctx& c, int depth, bool small)
{
    Model m, o;
    makeInit(m, c.choose(3));
    m.type = c.choose(2);
    o.t = {0.25, 1.0};
    o.d = {7, -3};
    o.type = 1;
    Traj tr = build(m), ot = build(o);
    double nextVal = 11;
    compare(c, tr, m, "initial size");
    for (int step = 0; step < depth; step++)
    {
        std::vector<int> ops = {0, 1, 2, 3};  // push abs, push abs duplicate stamp, push rel, query
        if (m.t.size())
        {
            ops.push_back(4);
            ops.push_back(5);
            ops.push_back(6);
            ops.push_back(7);
            if (m.t.size() >= 2)
                ops.push_back(8);
            ops.push_back(14);
            ops.push_back(16);
        }
        ops.push_back(9);
        ops.push_back(10);
        ops.push_back(11);
        ops.push_back(12);
        ops.push_back(13);
        ops.push_back(15);
        if (!small)
            ops.push_back(17);
        int op = c.pick(ops);
        c.step();
        switch (op)
        {
            case 0:
            {
                double t = m.t.empty() ? 0.125 : m.t.back() + 1.5;
                tr.push_back(val(nextVal), t, true);
                m.t.push_back(t);
                m.d.push_back(nextVal);
                nextVal += 3;
                c.log() << "push_back(t=" << t << ",abs) ";
                break;
            }
            case 1:
            {
                double t = m.t.empty() ? -0.5 : m.t.back();
                tr.push_back(val(nextVal), t, true);
                m.t.push_back(t);
                m.d.push_back(nextVal);
                nextVal += 3;
                c.log() << "push_back(t=" << t << ",abs,dup) ";
                break;
            }
            case 2:
            {
                if (m.t.empty())
                {
                    // relative push needs a predecessor; the empty query is the interesting case here
                    bool threw = false;
                    try
                    {
                        tr.eval(0.5);
                    } catch (const std::exception&)
                    {
                        threw = true;
                    }
                    c.check(threw, "eval on an empty trajectory must throw");
                    c.log() << "eval on empty ";
                }
                else
                {
                    tr.push_back(val(nextVal), 0.25, false);
                    m.t.push_back(m.t.back() + 0.25);
                    m.d.push_back(nextVal);
                    nextVal += 3;
                    c.log() << "push_back(0.25,rel) ";
                }
                break;
            }
            case 3:
                if (m.t.empty())
                {
                    bool threw = false;
                    try
                    {
                        tr.getIndexFromTime(0.5);
                    } catch (const std::exception&)
                    {
                        threw = true;
                    }
                    c.check(threw, "index lookup on an empty trajectory must throw");
                    c.log() << "getIndexFromTime on empty ";
                }
                else
                    doQuery(c, tr, m);
                break;
            case 4:
                tr.pop_back();
                m.t.pop_back();
                m.d.pop_back();
                c.log() << "pop_back ";
                break;
            case 5:
                tr.eraseFront(1);
                m.t.erase(m.t.begin());
                m.d.erase(m.d.begin());
                c.log() << "eraseFront(1) ";
                break;
            case 6:
                tr.eraseFront(1, 0.5);
                m.t.erase(m.t.begin());
                m.d.erase(m.d.begin());
                for (auto& t : m.t)
                    t -= 0.5;
                c.log() << "eraseFront(1,0.5) ";
                break;
            case 7:
            {
                double q = queryTime(c, m);
                c.log() << "getIndexFromTime(" << q << ") ";
                c.eqI(tr.getIndexFromTime(q), modelIndex(m, q), "getIndexFromTime");
                break;
            }
            case 8:
                tr.eraseFront(2, -0.25);
                m.t.erase(m.t.begin(), m.t.begin() + 2);
                m.d.erase(m.d.begin(), m.d.begin() + 2);
                for (auto& t : m.t)
                    t += 0.25;
                c.log() << "eraseFront(2,-0.25) ";
                break;
            case 9:
                tr.shiftTime(0.75);
                for (auto& t : m.t)
                    t -= 0.75;
                c.log() << "shiftTime(0.75) ";
                break;
            case 10:
                m.type = 1 - m.type;
                tr.setInterpolationType(m.type ? LIN : ZOH);
                c.log() << "setInterpolationType(" << m.type << ") ";
                break;
            case 11:
                tr.swapData(ot);
                std::swap(m.t, o.t);
                std::swap(m.d, o.d);
                c.log() << "swapData ";
                break;
            case 12:
                tr = ot;
                m = o;
                c.log() << "tr=other ";
                break;
            case 13:
                tr.clear();
                m.t.clear();
                m.d.clear();
                c.log() << "clear ";
                break;
            case 14:
            {
                // take out [s,e]
                int s = c.choose(m.t.size());
                Traj cut(tr, s, m.t.size() - 1 - (s > 0 ? 0 : (m.t.size() > 1)));
                Model k;
                k.type = m.type;
                int e = m.t.size() - 1 - (s > 0 ? 0 : (m.t.size() > 1));
                for (int i = s; i <= e; i++)
                {
                    k.t.push_back(m.t[i]);
                    k.d.push_back(m.d[i]);
                }
                compare(c, cut, k, "extracted part");
                doQuery(c, cut, k);
                c.log() << "extract(" << s << "," << e << ") ";
                ot = cut;
                o = k;
                break;
            }
            case 15:
            {
                Traj cp(tr);
                compare(c, cp, m, "copy");
                cp.push_back(val(99), 100, true);
                c.log() << "copy ";
                break;
            }
            case 16:
                tr[m.t.size() - 1] = val(nextVal);
                m.d.back() = nextVal;
                nextVal += 3;
                c.log() << "write last ";
                break;
            case 17:
            {
                // replace time stamps and data by a uniform grid of 4
                TimeArray t(0.5, 4, -1.0);
                StateVectorArray<2> d;
                m.t.clear();
                m.d.clear();
                for (int i = 0; i < 4; i++)
                {
                    m.t.push_back(-1.0 + 0.5 * i);
                    m.d.push_back(20 - i);
                    d.push_back(val(20 - i));
                }
                tr.setTime(t);
                tr.setData(d);
                c.log() << "setTime/setData ";
                break;
            }
        }
        compare(c, tr, m, "size");
        compare(c, ot, o, "size of other");
        c.state(hashModel(m));
    }
    if (!m.t.empty())
        doQuery(c, tr, m);
    if (!o.t.empty())
        c.eqM(ot.eval(o.t[0] + 0.1), modelEval(o, o.t[0] + 0.1), "other.eval");
}
MC_SUITE(edit_then_query, "all sequences of 3 (quick) / 4 (thorough) of 18 edit/query operations from 6 initial trajectories, then every query")
{
    editRun(c, c.thorough ? 4 : 3, false);
}

// query histories on longer grids: evaluation must not depend on what was asked before
MC_SUITE(query_histories, "6-point uneven grid with a duplicated stamp, all query sequences of length 3 (quick) / 4 (thorough)")
{
    Model m;
    m.t = {-1.0, 0.0, 0.25, 0.25, 2.0, 5.0};
    m.d = {3, -1, 4, 9, 2, 6};
    m.type = c.choose(2);
    Traj tr = build(m);
    int n = c.thorough ? 4 : 3;
    for (int i = 0; i < n; i++)
    {
        if (c.flip())
            doQuery(c, tr, m);
        else
        {
            double q = queryTime(c, m);
            c.eqI(tr.getIndexFromTime(q), modelIndex(m, q), "getIndexFromTime");
            c.step();
        }
        c.state(mc::mix(c.hist, i));
    }
}
// regular grids, constructor with (data, dt, t0)
MC_SUITE(uniform_grid, "data sizes 1..5, 3 spacings, 3 start times, 2 interpolations, all query pairs")
{
    int n = 1 + c.choose(5);
    double dt = c.pick<double>({0.1, 0.5, 1.0});
    double t0 = c.pick<double>({0.0, -0.7, 3.0});
    Model m;
    m.type = c.choose(2);
    StateVectorArray<2> d;
    for (int i = 0; i < n; i++)
    {
        m.t.push_back(t0 + i * dt);
        m.d.push_back(i * i - 2 * i + 0.5);
        d.push_back(val(m.d.back()));
    }
    Traj tr(d, dt, t0, m.type ? LIN : ZOH);
    c.eqI(tr.size(), n, "size");
    for (int i = 0; i < n; i++)
        c.eq(tr.getTimeFromIndex(i), m.t[i], "grid time", 1e-12);
    for (int i = 0; i < n; i++)
        m.t[i] = tr.getTimeFromIndex(i);  // use the stored (rounded) stamps for the exact lookup
    doQuery(c, tr, m);
    doQuery(c, tr, m);
    // linear interpolation is exact for affine data and never leaves the bracketing points
    c.state(c.hist);
}
// a scalar-valued and a matrix-valued trajectory share the same semantics
MC_SUITE(other_value_types, "scalar and feedback-matrix trajectories, 4 points, all query pairs")
{
    int which = c.choose(2);
    Model m;
    m.type = c.choose(2);
    m.t = {0.0, 1.0, 1.5, 4.0};
    m.d = {1, 5, -2, 3};
    double q[2];
    for (int k = 0; k < 2; k++)
        q[k] = queryTime(c, m);
    if (which == 0)
    {
        DiscreteTrajectoryBase<double> s(m.type ? LIN : ZOH);
        for (int i = 0; i < 4; i++)
            s.push_back(m.d[i], m.t[i], true);
        for (int k = 0; k < 2; k++)
            c.eq(s.eval(q[k]), modelEval(m, q[k])(0), "scalar eval");
    }
    else
    {
        FeedbackTrajectory<2, 1> f(m.type ? LIN : ZOH);
        for (int i = 0; i < 4; i++)
        {
            FeedbackMatrix<2, 1> K;
            K << val(m.d[i]).transpose();
            f.push_back(K, m.t[i], true);
        }
        for (int k = 0; k < 2; k++)
            c.eqM(f.eval(q[k]), modelEval(m, q[k]).transpose(), "matrix eval");
    }
    c.step(2);
    c.state(c.hist);
}
