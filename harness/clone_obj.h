// generic exploration of "clone" histories
#pragma once
#include "mc.h"
#include <memory>
typedef std::vector<double> Obs;
struct Obj
{
    virtual ~Obj() {}
    virtual std::shared_ptr<Obj> dup() = 0;  // wraps the library's clone()/copy
    virtual int nMut() = 0;
    virtual bool mutate(int i) = 0;  // false: not reachable through this object
    virtual void observe(Obs& o) = 0;
};
template <class M>
static void add(Obs& o, const M& m)
{
    o.push_back(m.rows());
    o.push_back(m.cols());
    for (int i = 0; i < m.rows(); i++)
        for (int j = 0; j < m.cols(); j++)
            o.push_back(m(i, j));
}
struct Hist
{
    std::shared_ptr<Obj> o;
    std::vector<int> ops;  // -1: observation
};
static Obs obsOf(Obj& o)
{
    Obs r;
    o.observe(r);
    return r;
}
static Obs replayObs(const std::function<std::shared_ptr<Obj>()>& make, const std::vector<int>& ops)
{
    auto f = make();
    for (int op : ops)
        if (op < 0)
            obsOf(*f);
        else
            f->mutate(op);
    return obsOf(*f);
}
static void same(mc::Ctx& c, const Obs& a, const Obs& b, const char* what)
{
    c.eqI(a.size(), b.size(), what);
    for (size_t i = 0; i < a.size() && i < b.size(); i++)
        if (!(a[i] == b[i] || (a[i] != a[i] && b[i] != b[i]) || std::fabs(a[i] - b[i]) <= 1e-12 * (1 + std::fabs(b[i]))))
        {
            c.fail(std::string(what) + ": output " + std::to_string(i) + " is " + mc::num(a[i]) + ", expected " + mc::num(b[i]));
            return;
        }
}
// original gets up to `pre` operations, is cloned, then up to `post` operations on either side;
// finally both are compared with freshly built objects that went through the same history
static void cloneRun(mc::Ctx& c, const std::function<std::shared_ptr<Obj>()>& make, int pre, int post)
{
    Hist h[2];
    h[0].o = make();
    int nm = h[0].o->nMut();
    auto apply = [&](int side, int op) {  // op 0: observe; k: mutation k-1
        c.step();
        c.log() << (side ? "clone." : "orig.") << (op ? "mut" + std::to_string(op - 1) : std::string("observe")) << " ";
        if (op == 0)
        {
            same(c, obsOf(*h[side].o), replayObs(make, h[side].ops), side ? "clone" : "original");
            h[side].ops.push_back(-1);
        }
        else
        {
            if (!h[side].o->mutate(op - 1))
                c.prune();
            h[side].ops.push_back(op - 1);
        }
        c.state(mc::mix(c.hist, op + 100 * side));
    };
    int n = c.choose(pre + 1);
    for (int i = 0; i < n; i++)
        apply(0, c.choose(nm + 1));
    c.log() << "| clone | ";
    h[1].o = h[0].o->dup();
    h[1].ops = h[0].ops;
    int m = c.choose(post + 1);
    for (int i = 0; i < m; i++)
    {
        int side = c.choose(2);
        apply(side, c.choose(nm + 1));
    }
    int order = c.choose(3);
    c.log() << "end" << order;
    if (order == 1)
        same(c, obsOf(*h[1].o), replayObs(make, h[1].ops), "clone");
    if (order == 2)
        h[0].o.reset();  // the clone outlives its original
    else
        same(c, obsOf(*h[0].o), replayObs(make, h[0].ops), "original");
    if (order != 1)
        same(c, obsOf(*h[1].o), replayObs(make, h[1].ops), "clone");
    c.step();
}
