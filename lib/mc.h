// Stateless explicit exploration of the real code.
//
// A suite is a function body(Ctx&) which builds fresh real objects and drives them; every nondeterministic decision
// (operation, argument, environment answer) is taken with Ctx::choose.  The explorer re-executes the body for every
// possible choice sequence (depth first, complete), and the body compares the implementation with a reference model
// after every operation.  A choice sequence is therefore a complete, replayable description of one execution.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <memory>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc
{
struct Failure
{
    std::string msg;
};
struct Prune
{
};
struct Divergence
{
    std::string msg;
};

inline uint64_t mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 33;
    return h;
}
inline uint64_t hd(double d)
{
    if (d == 0)
        d = 0;  // merge -0
    if (std::isnan(d))
        return 0x7ff8000000000000ull;
    float f = (float)d;  // coarse: state identity must not depend on the last bits
    uint32_t u;
    std::memcpy(&u, &f, 4);
    return u;
}

struct Progress
{
    volatile int n;
    volatile int c[4096];
};

class Ctx
{
public:
    std::vector<int> choices;  // taken so far
    std::vector<int> arity;
    std::vector<int> prefix;
    bool strict = false;   // replay: prefix has to be consumed exactly
    bool verbose = false;  // keep a human readable trace
    std::string traceText;
    Progress* prog = nullptr;
    uint64_t steps = 0;
    uint64_t hist = 0;  // rolling hash of everything observed (determinism check)
    std::unordered_set<uint64_t>* states = nullptr;
    bool thorough = false;

    int choose(int n, const char* = nullptr)
    {
        if (n <= 0)
            throw Divergence{"choose(0)"};
        size_t i = choices.size();
        int c = 0;
        if (i < prefix.size())
        {
            c = prefix[i];
            if (c >= n)
                throw Divergence{"replayed choice out of range"};
        }
        choices.push_back(c);
        arity.push_back(n);
        if (prog && i < 4096)
        {
            prog->c[i] = c;
            prog->n = (int)i + 1;
        }
        return c;
    }
    template <class T>
    const T& pick(const std::vector<T>& v)
    {
        return v[choose((int)v.size())];
    }
    bool flip() { return choose(2) == 1; }
    // one operation of the implementation was executed and compared
    void step(uint64_t n = 1) { steps += n; }
    // canonical state reached
    void state(uint64_t h)
    {
        hist = mix(hist, h);
        if (states)
            states->insert(h);
    }
    void observe(double d) { hist = mix(hist, hd(d)); }
    template <class D>
    void observeM(const D& m)
    {
        for (int i = 0; i < m.rows(); i++)
            for (int j = 0; j < m.cols(); j++)
                observe(m(i, j));
    }
    std::ostringstream& log()
    {
        static std::ostringstream sink;
        if (verbose)
            return tr_;
        sink.str("");
        return sink;
    }
    void prune() { throw Prune{}; }
    // a defect listed in known_findings.txt under this key; anything not listed there is a violation
    bool known(const char* key)
    {
        const char* e = getenv("MC_KNOWN");
        if (!e)
            return false;
        std::string l = std::string(",") + e + ",";
        if (l.find(std::string(",") + key + ",") == std::string::npos)
            return false;
        static std::unordered_set<std::string> said;
        if (said.insert(key).second)
            std::cerr << "KNOWNHIT " << key << std::endl;
        return true;
    }
    std::string trace() const { return tr_.str(); }
    void fail(const std::string& m) { throw Failure{m}; }
    void check(bool b, const std::string& m)
    {
        if (!b)
            throw Failure{m};
    }
    void check(bool b, const char* m)
    {
        if (!b)
            throw Failure{m};
    }
    void eq(double got, double want, const char* what, double tol = 1e-9)
    {
        bool ok = (std::isnan(got) && std::isnan(want)) || got == want ||
                  std::fabs(got - want) <= tol * (1.0 + std::fabs(want) + std::fabs(got));
        if (!ok)
        {
            std::ostringstream s;
            s.precision(15);
            s << what << ": got " << got << ", expected " << want;
            throw Failure{s.str()};
        }
        observe(want);
    }
    template <class A, class B>
    void eqI(const A& a, const B& b, const char* what)
    {
        if (!((long long)a == (long long)b))
        {
            std::ostringstream s;
            s << what << ": got " << a << ", expected " << b;
            throw Failure{s.str()};
        }
        hist = mix(hist, (uint64_t)(long long)b);
    }
    template <class A, class B>
    void eqM(const A& a, const B& b, const char* what, double tol = 1e-9)
    {
        if (a.rows() != b.rows() || a.cols() != b.cols())
        {
            std::ostringstream s;
            s << what << ": size " << a.rows() << "x" << a.cols() << ", expected " << b.rows() << "x" << b.cols();
            throw Failure{s.str()};
        }
        double scale = 1.0;
        for (int i = 0; i < b.rows(); i++)
            for (int j = 0; j < b.cols(); j++)
                if (std::isfinite((double)b(i, j)))
                    scale = std::max(scale, std::fabs((double)b(i, j)));
        for (int i = 0; i < b.rows(); i++)
            for (int j = 0; j < b.cols(); j++)
            {
                double x = a(i, j), y = b(i, j);
                bool ok = (std::isnan(x) && std::isnan(y)) || x == y || std::fabs(x - y) <= tol * (1 + scale);
                if (!ok)
                {
                    std::ostringstream s;
                    s.precision(15);
                    s << what << "(" << i << "," << j << "): got " << x << ", expected " << y;
                    throw Failure{s.str()};
                }
                observe(y);
            }
    }
    void eq(double got, double want, const std::string& what, double tol = 1e-9) { eq(got, want, what.c_str(), tol); }
    template <class A, class B>
    void eqI(const A& a, const B& b, const std::string& what) { eqI(a, b, what.c_str()); }
    template <class A, class B>
    void eqM(const A& a, const B& b, const std::string& what, double tol = 1e-9) { eqM(a, b, what.c_str(), tol); }
    // f has to throw some std::exception (the documented rejection)
    template <class F>
    void throws(F f, const char* what)
    {
        bool threw = false;
        try
        {
            f();
        } catch (const Failure&)
        {
            throw;
        } catch (const EigenAssertion& e)
        {
            throw Failure{std::string(what) + ": not rejected, ran into " + e.what()};
        } catch (const std::exception&)
        {
            threw = true;
        } catch (...)
        {
            threw = true;
        }
        if (!threw)
            throw Failure{std::string(what) + ": was accepted, should be rejected"};
        hist = mix(hist, 77);
    }

private:
    std::ostringstream tr_;
};

struct Suite
{
    std::string name;
    std::function<void(Ctx&)> body;
    int tier;  // 0: quick and thorough, 1: thorough only
    std::string bound;
};
inline std::vector<Suite>& suites()
{
    static std::vector<Suite> s;
    return s;
}
struct Reg
{
    Reg(const char* n, const char* bound, std::function<void(Ctx&)> b, int tier = 0)
    {
        suites().push_back(Suite{n, b, tier, bound});
    }
};
#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
// MC_SUITE(name, "bound text"){ body using Ctx& c }
#define MC_SUITE(NAME, BOUND)                                      \
    static void MC_CAT(mc_body_, NAME)(mc::Ctx & c);               \
    static mc::Reg MC_CAT(mc_reg_, NAME)(#NAME, BOUND, MC_CAT(mc_body_, NAME), 0); \
    static void MC_CAT(mc_body_, NAME)(mc::Ctx & c)
#define MC_SUITE_THOROUGH(NAME, BOUND)                             \
    static void MC_CAT(mc_body_, NAME)(mc::Ctx & c);               \
    static mc::Reg MC_CAT(mc_reg_, NAME)(#NAME, BOUND, MC_CAT(mc_body_, NAME), 1); \
    static void MC_CAT(mc_body_, NAME)(mc::Ctx & c)

inline std::string jesc(const std::string& s)
{
    std::string o;
    for (unsigned char ch : s)
    {
        if (ch == '"' || ch == '\\')
        {
            o += '\\';
            o += ch;
        }
        else if (ch == '\n')
            o += "\\n";
        else if (ch < 32 || ch > 126)
        {
            char b[8];
            snprintf(b, 8, "\\u%04x", ch);
            o += b;
        }
        else
            o += ch;
    }
    return o;
}

enum Result
{
    OK,
    PRUNED,
    FAIL
};

inline Result runOne(const Suite& s, Ctx& c, std::string& msg)
{
    try
    {
        s.body(c);
        return OK;
    } catch (const Prune&)
    {
        return PRUNED;
    } catch (const Failure& f)
    {
        msg = f.msg;
        return FAIL;
    } catch (const Divergence& d)
    {
        fprintf(stderr, "DIVERGENCE %s\n", d.msg.c_str());
        _exit(4);
    } catch (const std::exception& e)
    {
        msg = std::string("unexpected exception: ") + e.what();
        return FAIL;
    } catch (...)
    {
        msg = "unexpected exception of unknown type";
        return FAIL;
    }
}

inline void onAlarm(int)
{
    const char m[] = "HANG: one execution exceeded its time limit\n";
    (void)!write(2, m, sizeof(m) - 1);
    _exit(5);
}

inline int mainLoop(int argc, char** argv)
{
    std::string suite, out, progress, replay;
    int shard = 0, nshards = 1, tier = 0, execLimit = 20;
    double budget = 1e9;
    bool list = false;
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        auto nxt = [&]() { return std::string(argv[++i]); };
        if (a == "--list")
            list = true;
        else if (a == "--suite")
            suite = nxt();
        else if (a == "--shard")
        {
            std::string v = nxt();
            sscanf(v.c_str(), "%d/%d", &shard, &nshards);
        }
        else if (a == "--tier")
            tier = nxt() == "thorough";
        else if (a == "--out")
            out = nxt();
        else if (a == "--progress")
            progress = nxt();
        else if (a == "--replay")
            replay = nxt();
        else if (a == "--budget")
            budget = atof(nxt().c_str());
        else if (a == "--exec-limit")
            execLimit = atoi(nxt().c_str());
    }
    if (list)
    {
        for (auto& s : suites())
            if (s.tier <= tier)
                std::cout << s.name << "\n";
        return 0;
    }
    const Suite* S = nullptr;
    for (auto& s : suites())
        if (s.name == suite)
            S = &s;
    if (!S)
    {
        fprintf(stderr, "no suite %s\n", suite.c_str());
        return 2;
    }
    signal(SIGALRM, onAlarm);
    // the code under test prints to stdout: drop it
    int real = dup(1);
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
    if (!replay.empty())
    {
        // replay file: whitespace separated choices
        std::ifstream f(replay);
        Ctx c;
        int v;
        while (f >> v)
            c.prefix.push_back(v);
        c.verbose = true;
        c.thorough = tier;
        alarm(execLimit);
        std::string msg;
        Result r = runOne(*S, c, msg);
        alarm(0);
        std::cout.flush();
        dup2(real, 1);
        std::cout << "suite " << suite << "\n" << c.trace() << "\n";
        if (r == FAIL)
        {
            std::cout << "REPLAY-FAILS: " << msg << std::endl;
            return 1;
        }
        std::cout << "REPLAY-PASSES" << std::endl;
        return 0;
    }
    Progress localProg;
    Progress* prog = &localProg;
    if (!progress.empty())
    {
        int fd = open(progress.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (ftruncate(fd, sizeof(Progress)) != 0)
            return 2;
        void* p = mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (p != MAP_FAILED)
            prog = (Progress*)p;
        close(fd);
    }
    std::unordered_set<uint64_t> states, outcomes;
    uint64_t execs = 0, pruned = 0, steps = 0, redone = 0;
    size_t maxDepth = 0;
    std::vector<std::string> samples;
    std::vector<int> prefix;
    bool complete = true;
    std::string failMsg;
    std::vector<int> failChoices;
    std::string failTrace;
    auto t0 = std::chrono::steady_clock::now();
    while (true)
    {
        // sharding on the first two choices
        Ctx c;
        c.prefix = prefix;
        c.prog = prog;
        prog->n = 0;
        c.states = &states;
        c.thorough = tier;
        c.verbose = (execs < 1);
        std::string msg;
        Result r = OK;
        bool mine = true;
        alarm(execLimit);
        r = runOne(*S, c, msg);
        alarm(0);
        if (nshards > 1)
        {
            uint64_t h = c.choices.size() > 0 ? c.choices[0] : 0;
            h = h * 7919 + (c.choices.size() > 1 ? c.choices[1] : 0);
            h = h * 104729 + (c.choices.size() > 2 ? c.choices[2] : 0);
            h = mix(12345, h);
            mine = (int)(h % nshards) == shard;
        }
        if (mine)
        {
            if (r == PRUNED)
                pruned++;
            else
                execs++;
            steps += c.steps;
            maxDepth = std::max(maxDepth, c.choices.size());
            outcomes.insert(c.hist);
            if (c.verbose && r == OK && samples.size() < 3)
                samples.push_back(c.trace());
        }
        if (mine && r == OK && (execs <= 3 || execs % 997 == 0))
        {
            // determinism: the same choices must give the same observations
            Ctx d;
            d.prefix = c.choices;
            d.thorough = tier;
            d.verbose = samples.size() < 3;
            std::string m2;
            alarm(execLimit);
            Result r2 = runOne(*S, d, m2);
            alarm(0);
            redone++;
            if (r2 != OK || d.hist != c.hist)
            {
                // an execution that is not a function of its choices: report as violation candidate of determinism
                r = FAIL;
                msg = "two executions of the same operation sequence gave different observations " + m2;
            }
            else if (d.verbose)
                samples.push_back(d.trace());
        }
        if (r == FAIL && mine)
        {
            // replay before report
            Ctx d;
            d.prefix = c.choices;
            d.thorough = tier;
            d.verbose = true;
            std::string m2;
            alarm(execLimit);
            Result r2 = runOne(*S, d, m2);
            alarm(0);
            failMsg = msg;
            if (r2 != FAIL)
                failMsg += " [not reproduced when replayed in the same process]";
            failChoices = c.choices;
            failTrace = d.trace();
            break;
        }
        // next prefix (depth first)
        std::vector<int> ch = c.choices, ar = c.arity;
        if (!mine)
        {
            // skip the whole subtree below the third choice
            if (ch.size() > 3)
            {
                ch.resize(3);
                ar.resize(3);
            }
        }
        while (!ch.empty() && ch.back() + 1 >= ar.back())
        {
            ch.pop_back();
            ar.pop_back();
        }
        if (ch.empty())
            break;
        ch.back()++;
        prefix = ch;
        if ((execs & 63) == 0)
        {
            double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
            if (el > budget)
            {
                complete = false;
                break;
            }
        }
    }
    std::cout.flush();
    dup2(real, 1);
    double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (!out.empty())
    {
        std::ofstream o(out);
        o << "{\"suite\":\"" << suite << "\",\"bound\":\"" << jesc(S->bound) << "\",\"executions\":" << execs
          << ",\"pruned\":" << pruned << ",\"transitions\":" << steps << ",\"max_choices\":" << maxDepth
          << ",\"replayed_twice\":" << redone << ",\"complete\":" << (complete ? "true" : "false")
          << ",\"wall_s\":" << el << ",\"samples\":[";
        for (size_t i = 0; i < samples.size(); i++)
            o << (i ? "," : "") << "\"" << jesc(samples[i].substr(0, 700)) << "\"";
        o << "],\"fail\":";
        if (failMsg.empty())
            o << "null";
        else
        {
            o << "{\"msg\":\"" << jesc(failMsg) << "\",\"trace\":\"" << jesc(failTrace.substr(0, 4000))
              << "\",\"choices\":[";
            for (size_t i = 0; i < failChoices.size(); i++)
                o << (i ? "," : "") << failChoices[i];
            o << "]}";
        }
        o << "}\n";
        std::ofstream b(out + ".states", std::ios::binary);
        for (uint64_t s : states)
            b.write((const char*)&s, 8);
        std::ofstream b2(out + ".outcomes", std::ios::binary);
        for (uint64_t s : outcomes)
            b2.write((const char*)&s, 8);
    }
    std::cerr << suite << " execs=" << execs << " pruned=" << pruned << " steps=" << steps << " states=" << states.size()
              << " outcomes=" << outcomes.size() << " t=" << el << (complete ? "" : " INCOMPLETE") << std::endl;
    if (!failMsg.empty())
    {
        std::cerr << "FAIL " << failMsg << "\n" << failTrace << std::endl;
        return 1;
    }
    return 0;
}
}  // namespace mc
#ifndef MC_NO_MAIN
int main(int argc, char** argv)
{
    return mc::mainLoop(argc, argv);
}
#endif
