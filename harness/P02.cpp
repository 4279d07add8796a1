// P02: arrays and time grids: element-wise arithmetic, editing, grids.
#include <ct/core/core.h>
#include "mc.h"
using namespace ct::core;
typedef StateVector<2> V;
typedef StateVectorArray<2> Arr;
static V val(double a)
{
    V v;
    v << a, 0.5 - 3 * a;
    return v;
}
typedef std::vector<V, Eigen::aligned_allocator<V>> M;
static void compare(mc::Ctx& c, const Arr& a, const M& m, const char* w)
{
    c.eqI(a.size(), m.size(), w);
    for (size_t i = 0; i < m.size(); i++)
        c.eqM(a[i], m[i], w, 1e-12);
    size_t i = 0;
    for (auto it = a.begin(); it != a.end(); ++it, ++i)
        c.eqM(*it, m[i], w, 1e-12);
    c.eqI(i, m.size(), "iteration length");
    if (m.size())
    {
        c.eqM(a.front(), m.front(), w, 1e-12);
        c.eqM(a.back(), m.back(), w, 1e-12);
    }
}
static uint64_t hashM(const M& m)
{
    uint64_t h = 3;
    for (auto& v : m)
        h = mc::mix(mc::mix(h, mc::hd(v(0))), mc::hd(v(1)));
    return h;
}
MC_SUITE(array_programs, "two arrays of sizes 0..3, all programs of 3 (quick) / 4 (thorough) operations")
{
    int n1 = c.choose(4), n2 = c.choose(4);
    Arr a, b;
    M ma, mb;
    for (int i = 0; i < n1; i++)
    {
        a.push_back(val(i + 1));
        ma.push_back(val(i + 1));
    }
    for (int i = 0; i < n2; i++)
    {
        b.push_back(val(-2 * i + 0.5));
        mb.push_back(val(-2 * i + 0.5));
    }
    int depth = c.thorough ? 4 : 3;
    for (int s = 0; s < depth; s++)
    {
        c.step();
        int op = c.choose(18);
        switch (op)
        {
            case 0:
            case 1:
            case 2:
            case 3:
            {
                auto act = [&]() {
                    if (op == 0)
                    {
                        Arr r = a + b;
                        M mr = ma;
                        for (size_t i = 0; i < mr.size(); i++)
                            mr[i] = ma[i] + mb[i];
                        compare(c, r, mr, "a+b");
                    }
                    if (op == 1)
                    {
                        Arr r = a - b;
                        M mr = ma;
                        for (size_t i = 0; i < mr.size(); i++)
                            mr[i] = ma[i] - mb[i];
                        compare(c, r, mr, "a-b");
                    }
                    if (op == 2)
                    {
                        Arr& r = (a += b);
                        c.check(&r == &a, "+= returns the left operand");
                    }
                    if (op == 3)
                    {
                        Arr& r = (a -= b);
                        c.check(&r == &a, "-= returns the left operand");
                    }
                };
                c.log() << (op == 0 ? "a+b " : op == 1 ? "a-b " : op == 2 ? "a+=b " : "a-=b ");
                if (ma.size() != mb.size())
                    c.throws(act, "arithmetic on arrays of different size");
                else
                {
                    act();
                    if (op >= 2)
                        for (size_t i = 0; i < ma.size(); i++)
                            ma[i] = op == 2 ? V(ma[i] + mb[i]) : V(ma[i] - mb[i]);
                }
                break;
            }
            case 4:
            {
                Arr r = a * 2.5;
                M mr = ma;
                for (auto& v : mr)
                    v *= 2.5;
                compare(c, r, mr, "a*s");
                c.log() << "a*2.5 ";
                break;
            }
            case 5:
            {
                Arr r = a / 4.0;
                M mr = ma;
                for (auto& v : mr)
                    v /= 4.0;
                compare(c, r, mr, "a/s");
                c.log() << "a/4 ";
                break;
            }
            case 6:
                a.setConstant(val(8));
                for (auto& v : ma)
                    v = val(8);
                c.log() << "setConstant ";
                break;
            case 7:
                a.addOffset(val(-1.5));
                for (auto& v : ma)
                    v += val(-1.5);
                c.log() << "addOffset ";
                break;
            case 8:
            {
                size_t k = ma.size() ? c.choose(ma.size() + 1) : 0;
                a.eraseFront(k);
                ma.erase(ma.begin(), ma.begin() + k);
                c.log() << "eraseFront(" << k << ") ";
                break;
            }
            case 9:
                a.push_back(val(5));
                ma.push_back(val(5));
                c.log() << "push ";
                break;
            case 10:
                if (ma.empty())
                    c.prune();
                a.pop_back();
                ma.pop_back();
                c.log() << "pop ";
                break;
            case 11:
                a.swap(b);
                std::swap(ma, mb);
                c.log() << "swap ";
                break;
            case 12:
                a = b;
                ma = mb;
                c.log() << "a=b ";
                break;
            case 13:
                a = *&a;
                c.log() << "a=a ";
                break;
            case 14:
                a.clear();
                ma.clear();
                c.log() << "clear ";
                break;
            case 15:
            {
                size_t k = c.choose(5);
                a.resize(k, val(3));
                ma.resize(k, val(3));
                c.log() << "resize(" << k << ") ";
                break;
            }
            case 16:
            {
                Arr cp(a);
                compare(c, cp, ma, "copy");
                cp.push_back(val(77));
                Arr part(a.begin(), a.end());
                compare(c, part, ma, "range copy");
                Arr mv(std::move(cp));
                c.eqI(mv.size(), ma.size() + 1, "moved array size");
                c.log() << "copy ";
                break;
            }
            case 17:
                if (ma.empty())
                    c.prune();
                a[ma.size() - 1] = val(-9);
                ma.back() = val(-9);
                c.throws([&]() { a.at(ma.size()); }, "at() past the end");
                c.log() << "write ";
                break;
        }
        compare(c, a, ma, "a");
        compare(c, b, mb, "b");
        c.state(mc::mix(hashM(ma), hashM(mb)));
    }
}
MC_SUITE(time_grids, "all time grids with 4 spacings, 4 offsets, sizes 1..9")
{
    double dt = c.pick<double>({0.1, 0.25, 1.0, 0.013});
    double t0 = c.pick<double>({0.0, -2.0, 0.3, 10.0});
    size_t N = 1 + c.choose(9);
    TimeArray t(dt, N, t0);
    c.eqI(t.size(), N, "grid size");
    for (size_t i = 0; i < N; i++)
        c.eq(t[i], t0 + i * dt, "grid point", 1e-12);
    t.addOffset(1.5);
    for (size_t i = 0; i < N; i++)
        c.eq(t[i], t0 + i * dt + 1.5, "shifted grid point", 1e-12);
    TimeArray u(N, t0);
    c.eqI(u.size(), N, "constant grid size");
    for (size_t i = 0; i < N; i++)
        c.eq(u[i], t0, "constant grid");
    std::vector<double> raw;
    for (size_t i = 0; i < N; i++)
        raw.push_back(i * i - t0);
    TimeArray w(raw);
    c.eqI(w.size(), N, "grid from vector");
    for (size_t i = 0; i < N; i++)
        c.eq(w[i], raw[i], "grid from vector");
    // linspace: N points, exact end points, equal spacing
    if (N >= 1)
    {
        auto l = linspace<ScalarArray<double>>(t0, t0 + 3 * dt, N);
        c.eqI(l.size(), N, "linspace size");
        if (N > 1)
            for (size_t i = 0; i < N; i++)
                c.eq(l[i], t0 + 3 * dt * i / (N - 1), "linspace point", 1e-12);
    }
    ScalarArray<double> sa(raw);
    auto e = sa.toEigenTrajectory();
    c.eqI(e.size(), N, "toEigenTrajectory size");
    ScalarArray<double> sb;
    sb.fromEigenTrajectory(e);
    c.eqI(sb.size(), N, "fromEigenTrajectory size");
    for (size_t i = 0; i < N; i++)
        c.eq(sb[i], raw[i], "round trip");
    c.step(6);
    c.state(c.hist);
}
