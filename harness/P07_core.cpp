// P07: clones of systems, controllers, discretisers, sensitivities and derivatives
// MC_LIBS: -llapack -lblas -lcppad_lib
#include <ct/core/core.h>
#include <ct/optcon/filter/filter.h>
#include <ct/optcon/filter/filter-impl.h>
#include "mc_file.h"
#include "clone_obj.h"
using namespace ct::core;
typedef StateVector<2> X;
typedef ControlVector<1> U;
typedef StateMatrix<2> MA;
typedef StateControlMatrix<2, 1> MB;
static X mx(double a, double b)
{
    X x;
    x << a, b;
    return x;
}
static U mu(double a)
{
    U u;
    u << a;
    return u;
}
static const X xs[2] = {mx(0.5, -1.25), mx(-2, 0.75)};
static const U us[2] = {mu(0.7), mu(-1.5)};

// a controller and systems with parameters
struct Ctl : public Controller<2, 1>
{
    double g = 0.5;
    Ctl* clone() const override { return new Ctl(*this); }
    void computeControl(const X& x, const double& t, U& u) override { u(0) = g * x(0) - x(1) + t; }
};
struct DCtl : public DiscreteController<2, 1>
{
    double g = 0.5;
    DCtl* clone() const override { return new DCtl(*this); }
    void computeControl(const X& x, const int n, U& u) override { u(0) = g * x(0) - x(1) + n; }
};
struct NL : public ControlledSystem<2, 1>
{
    double k = 1.5;
    NL(SYSTEM_TYPE t = GENERAL) : ControlledSystem<2, 1>(t) {}
    NL* clone() const override { return new NL(*this); }
    void computeControlledDynamics(const X& x, const double& t, const U& u, X& d) override { d << x(1), -k * x(0) * x(0) + u(0) * (1 + t); }
};
struct Lin : public LinearSystem<2, 1>
{
    double k = 1.5;
    MA A_;
    MB B_;
    Lin() { A_.setZero(), B_.setZero(); }
    Lin* clone() const override { return new Lin(*this); }
    const MA& getDerivativeState(const X&, const U&, const double t) override
    {
        A_ << 0, 1, -k, t;
        return A_;
    }
    const MB& getDerivativeControl(const X&, const U&, const double t) override
    {
        B_ << 0, k + t;
        return B_;
    }
};
struct DNL : public DiscreteControlledSystem<2, 1>
{
    double k = 1.5;
    DNL* clone() const override { return new DNL(*this); }
    void propagateControlledDynamics(const X& x, const int n, const U& u, X& xn) override { xn << x(0) + 0.1 * x(1), x(1) - k * x(0) * x(1) + u(0) * (1 + n); }
};
struct DLin : public DiscreteLinearSystem<2, 1>
{
    double k = 1.5;
    DLin* clone() const override { return new DLin(*this); }
    void getAandB(const X& x, const U& u, const X& xn, const int n, size_t sub, MA& A, MB& B) override
    {
        A << 1, 0.1, -k, n;
        B << 0, k + n;
    }
};
// observation of systems
static void obsSys(Obs& o, ControlledSystem<2, 1>& s)
{
    o.push_back(s.getType());
    o.push_back(s.isSymplectic());
    o.push_back(s.getController() ? 1 : 0);
    add(o, s.getLastControlAction());
    for (double t : {0.25, 1.5})
        for (int i = 0; i < 2; i++)
        {
            X d;
            d.setConstant(99);
            s.computeControlledDynamics(xs[i], t, us[i], d);
            add(o, d);
            d.setConstant(99);
            s.computeDynamics(xs[i], t, d);
            add(o, d);
            add(o, s.getLastControlAction());
        }
}
static void obsLin(Obs& o, LinearSystem<2, 1>& s)
{
    obsSys(o, s);
    for (double t : {0.25, 1.5})
        for (int i = 0; i < 2; i++)
        {
            add(o, s.getDerivativeState(xs[i], us[i], t));
            add(o, s.getDerivativeControl(xs[i], us[i], t));
        }
}
static void obsDisc(Obs& o, DiscreteControlledSystem<2, 1>& s)
{
    o.push_back(s.getType());
    std::shared_ptr<DiscreteController<2, 1>> k;
    s.getController(k);
    o.push_back(k ? 1 : 0);
    for (int n : {0, 3})
        for (int i = 0; i < 2; i++)
        {
            X d;
            d.setConstant(99);
            s.propagateControlledDynamics(xs[i], n, us[i], d);
            add(o, d);
            d.setConstant(99);
            s.propagateDynamics(xs[i], n, d);
            add(o, d);
        }
}
static void obsDLin(Obs& o, DiscreteLinearSystem<2, 1>& s)
{
    obsDisc(o, s);
    for (int n : {0, 3})
    {
        MA A;
        MB B;
        s.getAandB(xs[0], us[0], xs[1], n, 1, A, B);
        add(o, A);
        add(o, B);
        s.getAandB(xs[1], us[1], n, A, B);
        add(o, A);
        add(o, B);
    }
}
// mutations common to continuous systems: 0 attach controller, 1 change attached controller, 2 detach
template <class SYS>
static bool mutCtl(SYS& s, int i)
{
    if (i == 0)
        s.setController(std::make_shared<Ctl>());
    if (i == 2)
        s.setController(nullptr);
    if (i == 1)
    {
        auto k = std::dynamic_pointer_cast<Ctl>(s.getController());
        if (!k)
            return true;
        k->g = -2;
    }
    return true;
}
template <class SYS>
static bool mutDCtl(SYS& s, int i)
{
    if (i == 0)
        s.setController(std::make_shared<DCtl>());
    if (i == 2)
        s.setController(nullptr);
    if (i == 1)
    {
        std::shared_ptr<DiscreteController<2, 1>> p;
        s.getController(p);
        auto k = std::dynamic_pointer_cast<DCtl>(p);
        if (!k)
            return true;
        k->g = -2;
    }
    return true;
}

#define CLONE(NAME, T)                                              \
    std::shared_ptr<Obj> dup() override                             \
    {                                                               \
        auto n = std::make_shared<NAME>(Dup());                     \
        n->p.reset(static_cast<T*>(p->clone()));                    \
        return n;                                                   \
    }                                                               \
    std::shared_ptr<T> p;
struct Dup
{
};

struct OLti : Obj
{
    OLti(Dup) {}
    OLti()
    {
        MA A, C;
        MB B, D;
        A << 1, 2, 3, 4;
        B << -1, 0.5;
        C << 2, 0, 1, 1;
        D << 0.25, 3;
        p.reset(new LTISystem<2, 1>(A, B, C, D));
    }
    typedef LTISystem<2, 1> LTI;
    CLONE(OLti, LTI)
    int nMut() override { return 6; }
    bool mutate(int i) override
    {
        if (i == 3)
            p->A()(0, 1) = 7;
        if (i == 4)
            p->B()(1, 0) = -7;
        if (i == 5)
            p->C()(1, 0) = p->D()(0, 0) = 5;
        return mutCtl(*p, i);
    }
    void observe(Obs& o) override
    {
        obsLin(o, *p);
        X y;
        p->computeOutput(xs[0], 0, us[0], y);
        add(o, y);
    }
};
struct OSecond : Obj
{
    typedef SecondOrderSystem T;
    OSecond(Dup) {}
    OSecond() : p(new T(2.0, 0.5, 1.5)) {}
    CLONE(OSecond, T)
    int nMut() override { return 4; }
    bool mutate(int i) override
    {
        if (i == 3)
            p->setDynamics(3.0, 0.1, -2.0);
        return mutCtl(*p, i);
    }
    void observe(Obs& o) override { obsSys(o, *p); }
};
struct ONl : Obj  // user systems exercising ControlledSystem's copy constructor
{
    ONl(Dup) {}
    ONl() : p(new NL(SECOND_ORDER)) {}
    CLONE(ONl, NL)
    int nMut() override { return 4; }
    bool mutate(int i) override
    {
        if (i == 3)
            p->k = -1;
        return mutCtl(*p, i);
    }
    void observe(Obs& o) override { obsSys(o, *p); }
};
static ContinuousModeSequence cseq(int v)
{
    ContinuousModeSequence s(v ? 0.5 : 0.0);
    s.addPhase(v ? 1 : 0, 1.0);
    s.addPhase(v ? 0 : 1, 1.0);
    return s;
}
template <class MODE, class BASE, class T>
struct OSwitched : Obj
{
    OSwitched(Dup) {}
    OSwitched()
    {
        Switched<std::shared_ptr<BASE>> sys;
        for (int i = 0; i < 2; i++)
        {
            modes.emplace_back(new MODE());
            modes[i]->k = 1 + i;
            sys.push_back(modes[i]);
        }
        p.reset(new T(sys, cseq(0)));
    }
    CLONE(OSwitched, T)
    std::vector<std::shared_ptr<MODE>> modes;
    int nMut() override { return 5; }
    bool mutate(int i) override
    {
        if (i >= 3)
        {
            if (modes.empty())
                return false;
            modes[i - 3]->k += 4;
            return true;
        }
        return mutCtl(*p, i);
    }
    void obs(Obs& o, ControlledSystem<2, 1>& s) { obsSys(o, s); }
    void obs(Obs& o, LinearSystem<2, 1>& s) { obsLin(o, s); }
    void observe(Obs& o) override { obs(o, *p); }
};
template <class MODE, class BASE, class T>
struct OSwitchedD : Obj
{
    OSwitchedD(Dup) {}
    OSwitchedD()
    {
        Switched<std::shared_ptr<BASE>> sys;
        DiscreteModeSequence s(0);
        for (int i = 0; i < 2; i++)
        {
            modes.emplace_back(new MODE());
            modes[i]->k = 1 + i;
            sys.push_back(modes[i]);
            s.addPhase(i, 2);
        }
        p.reset(new T(sys, s));
    }
    CLONE(OSwitchedD, T)
    std::vector<std::shared_ptr<MODE>> modes;
    int nMut() override { return 5; }
    bool mutate(int i) override
    {
        if (i >= 3)
        {
            if (modes.empty())
                return false;
            modes[i - 3]->k += 4;
            return true;
        }
        return mutDCtl(*p, i);
    }
    void obs(Obs& o, DiscreteControlledSystem<2, 1>& s) { obsDisc(o, s); }
    void obs(Obs& o, DiscreteLinearSystem<2, 1>& s) { obsDLin(o, s); }
    void observe(Obs& o) override { obs(o, *p); }
};
template <int TYPE, int DS>
struct OSysLin : Obj
{
    typedef SystemLinearizer<2, 1> T;
    OSysLin(Dup) {}
    OSysLin() : in(new NL((SYSTEM_TYPE)TYPE)) { p.reset(new T(in, DS)); }
    CLONE(OSysLin, T)
    std::shared_ptr<NL> in;
    int nMut() override { return 4; }
    bool mutate(int i) override
    {
        if (i == 3)
        {
            if (!in)
                return false;
            in->k += 2;
            return true;
        }
        return mutCtl(*p, i);
    }
    void observe(Obs& o) override { obsLin(o, *p); }
};
template <int DS>
struct ODSysLin : Obj
{
    typedef DiscreteSystemLinearizer<2, 1> T;
    ODSysLin(Dup) {}
    ODSysLin() : in(new DNL()) { p.reset(new T(in, DS)); }
    CLONE(ODSysLin, T)
    std::shared_ptr<DNL> in;
    int nMut() override { return 4; }
    bool mutate(int i) override
    {
        if (i == 3)
        {
            if (!in)
                return false;
            in->k += 2;
            return true;
        }
        return mutDCtl(*p, i);
    }
    void observe(Obs& o) override
    {
        obsDLin(o, *p);
        add(o, p->getDerivativeState(xs[0], us[0], 2));
        add(o, p->getDerivativeControl(xs[0], us[0], 2));
    }
};
struct ODiscretizer : Obj
{
    typedef SystemDiscretizer<2, 1> T;
    ODiscretizer(Dup) {}
    ODiscretizer() : in(new NL()) { p.reset(new T(in, 0.1, EULERCT, 2)), p->initialize(); }
    CLONE(ODiscretizer, T)
    std::shared_ptr<NL> in;
    int nMut() override { return 7; }
    bool mutate(int i) override
    {
        switch (i)
        {
            case 3: p->setIntegrationType(RK4), p->initialize(); return true;
            case 4: p->setParameters(0.2, 3); return true;
            case 5:
                in.reset(new NL());
                in->k = 4;
                p->changeContinuousTimeSystem(in);
                return true;
            case 6:
                if (!in)
                    return false;
                in->k += 2;
                return true;
        }
        return mutDCtl(*p, i);
    }
    void observe(Obs& o) override { obsDisc(o, *p); }
};
struct OSens : Obj
{
    typedef SensitivityApproximation<2, 1> T;
    OSens(Dup) {}
    OSens() : in(new Lin()) { p.reset(new T(0.1, in)); }
    CLONE(OSens, T)
    std::shared_ptr<Lin> in;
    int nMut() override { return 5; }
    bool mutate(int i) override
    {
        switch (i)
        {
            case 0: p->setApproximation(SensitivityApproximationSettings::APPROXIMATION::TUSTIN); break;
            case 1: p->setTimeDiscretization(0.3); break;
            case 2:
                in.reset(new Lin());
                in->k = 4;
                p->setLinearSystem(in);
                break;
            case 3:
                if (!in)
                    return false;
                in->k += 2;
                break;
            case 4: p->updateSettings(SensitivityApproximationSettings(0.2, SensitivityApproximationSettings::APPROXIMATION::SYMPLECTIC_EULER)); break;
        }
        return true;
    }
    void observe(Obs& o) override
    {
        o.push_back((int)p->getApproximation());
        for (int n : {0, 4})
        {
            MA A;
            MB B;
            p->getAandB(xs[0], us[0], xs[1], n, 1, A, B);
            add(o, A);
            add(o, B);
        }
    }
};
// ---- controllers
struct OFeedback : Obj
{
    typedef StateFeedbackController<2, 1> T;
    OFeedback(Dup) {}
    static void data(int v, int n, StateVectorArray<2>& x, ControlVectorArray<1>& u, FeedbackArray<2, 1>& K, TimeArray& t)
    {
        for (int i = 0; i < n; i++)
        {
            x.push_back(mx(1 + i + v, -2 * i));
            u.push_back(mu(0.5 * i - v));
            FeedbackMatrix<2, 1> k;
            k << 0.1 * i + v, 2 - i;
            K.push_back(k);
            t.push_back(0.5 * i + v);
        }
        x.push_back(mx(-1, 1));
        t.push_back(0.5 * n + v);
    }
    OFeedback()
    {
        StateVectorArray<2> x;
        ControlVectorArray<1> u;
        FeedbackArray<2, 1> K;
        TimeArray t;
        data(0, 3, x, u, K, t);
        p.reset(new T(x, u, K, 0.5, 0.0, ZOH));
    }
    CLONE(OFeedback, T)
    int nMut() override { return 5; }
    bool mutate(int i) override
    {
        switch (i)
        {
            case 0:
            {
                StateVectorArray<2> x;
                ControlVectorArray<1> u;
                FeedbackArray<2, 1> K;
                TimeArray t;
                data(1, 2, x, u, K, t);
                p->update(x, u, K, t);
                break;
            }
            case 1: p->getFeedforwardTrajectory()[0] = mu(9); break;
            case 2: p->getReferenceStateTrajectory()[1] = mx(5, 6); break;
            case 3: p->getFeedbackTrajectory()[0] *= -3; break;
            case 4: p->getFeedforwardTrajectory().setInterpolationType(LIN); break;
        }
        return true;
    }
    void observe(Obs& o) override
    {
        for (double t : {-1.0, 0.0, 0.3, 1.2, 1.6, 9.0})
        {
            U u;
            p->computeControl(xs[0], t, u);
            add(o, u);
        }
        for (int n : {0, 1})
        {
            U u;
            p->computeControl(xs[1], n, u);
            add(o, u);
        }
        for (auto& v : p->x_ref())
            add(o, v);
        for (auto& v : p->uff())
            add(o, v);
        for (auto& v : p->K())
            add(o, v);
        for (auto& v : p->time())
            o.push_back(v);
    }
};
struct OConst : Obj
{
    typedef ConstantController<2, 1> T;
    OConst(Dup) {}
    OConst()
    {
        U u = mu(3);
        p.reset(new T(u));
    }
    CLONE(OConst, T)
    int nMut() override { return 2; }
    bool mutate(int i) override
    {
        p->setControl(mu(i ? 7 : -4));
        return true;
    }
    void observe(Obs& o) override
    {
        U u;
        p->computeControl(xs[0], 1.0, u);
        add(o, u);
        p->computeControl(xs[0], 1, u);
        add(o, u);
        add(o, p->getControl());
        add(o, p->getDerivativeU0(xs[0], 0.5));
    }
};
struct OConstFb : Obj
{
    typedef ConstantStateFeedbackController<2, 1> T;
    OConstFb(Dup) {}
    OConstFb()
    {
        FeedbackMatrix<2, 1> K;
        K << 1, 2;
        p.reset(new T(mu(1), mx(2, 3), K));
    }
    CLONE(OConstFb, T)
    int nMut() override { return 2; }
    bool mutate(int i) override
    {
        FeedbackMatrix<2, 1> K;
        K << -1, 5 + i;
        if (i)
            p->updateControlLaw(mu(-1), mx(0, 3), K);
        else
            p->updateControlLaw(mu(-2), mx(1, 3));
        return true;
    }
    void observe(Obs& o) override
    {
        for (int i = 0; i < 2; i++)
        {
            U u;
            p->computeControl(xs[i], 1.0, u);
            add(o, u);
        }
    }
};
struct OStep : Obj
{
    typedef StepInputController T;
    OStep(Dup) {}
    OStep() : p(new T(T::Parameters(2.0, 1.0))) {}
    CLONE(OStep, T)
    int nMut() override { return 0; }
    bool mutate(int i) override { return true; }
    void observe(Obs& o) override
    {
        for (double t : {0.0, 0.5, 1.0, 2.0})
        {
            U u;
            StateVector<1> x;
            x << 1;
            p->computeControl(x, t, u);
            add(o, u);
        }
    }
};
struct OPid : Obj
{
    typedef PIDController<double> T;
    OPid(Dup) {}
    OPid()
    {
        T::parameters_t q(2, 0.5, 0.25, 0.1, 0.3, 5, -4);
        T::setpoint_t s(1.0, 0.5);
        p.reset(new T(q, s));
    }
    CLONE(OPid, T)
    int nMut() override { return 7; }
    bool mutate(int i) override
    {
        switch (i)
        {
            case 0: p->setInitialState(0.4); break;
            case 1: p->setDesiredState(-1); break;
            case 2: p->setDesiredState(2, 1); break;
            case 3: p->changeParameters(T::parameters_t(1, 1, 1, 0.2)); break;
            case 4: p->Parameters().k_p = -1; break;
            case 5: p->reset(); break;
            case 6: p->computeControl(0.75, 0.2); break;
        }
        return true;
    }
    void observe(Obs& o) override
    {
        o.push_back(p->computeControl(0.3, 0.5));
        o.push_back(p->computeControl(-0.2, 0.7, 0.6));
        o.push_back(p->computeControl(0.9, 0.7));
        o.push_back(p->Parameters().k_p);
        o.push_back(p->Parameters().uMax);
    }
};
// ---- derivatives
struct ODerivNum : Obj
{
    typedef DerivativesNumDiff<3, 2> T;
    ODerivNum(Dup) {}
    ODerivNum()
    {
        T::Function f = [](const Eigen::Vector3d& x) { return Eigen::Vector2d(x(0) * x(1) + x(2), std::sin(x(1))); };
        p.reset(new T(f, true));
    }
    CLONE(ODerivNum, T)
    int nMut() override { return 0; }
    bool mutate(int i) override { return true; }
    void observe(Obs& o) override
    {
        for (double s : {1.0, -0.5})
        {
            Eigen::VectorXd x = s * Eigen::Vector3d(0.5, 1, -2);
            add(o, p->forwardZero(x));
            add(o, p->jacobian(x));
        }
    }
};
struct ODerivAd : Obj
{
    typedef DerivativesCppad<3, 2> T;
    ODerivAd(Dup) {}
    template <int V>
    static T::FUN_TYPE_AD fun()
    {
        return [](const T::IN_TYPE_AD& x) {
            T::OUT_TYPE_AD y;
            y << x(0) * x(1) + V * x(2) * x(2), CppAD::sin(x(1));
            return y;
        };
    }
    ODerivAd()
    {
        mc::Quiet q;
        auto f = fun<1>();
        p.reset(new T(f));
    }
    CLONE(ODerivAd, T)
    int nMut() override { return 1; }
    bool mutate(int i) override
    {
        mc::Quiet q;
        auto f = fun<3>();
        p->update(f);
        return true;
    }
    void observe(Obs& o) override
    {
        for (double s : {1.0, -0.5})
        {
            Eigen::VectorXd x = s * Eigen::Vector3d(0.5, 1, -2);
            Eigen::VectorXd w = Eigen::Vector2d(1, -2);
            add(o, p->forwardZero(x));
            add(o, p->jacobian(x));
            add(o, p->hessian(x, w));
        }
    }
};
// ---- estimator side
struct ODist : Obj
{
    typedef ct::optcon::InputDisturbedSystem<2, 1> T;
    ODist(Dup) {}
    ODist() : in(new NL()), ctl(new Ctl())
    {
        in->setController(ctl);
        p.reset(new T(in));
    }
    CLONE(ODist, T)
    std::shared_ptr<NL> in;
    std::shared_ptr<Ctl> ctl;
    int nMut() override { return 4; }
    bool mutate(int i) override
    {
        switch (i)
        {
            case 0:
                if (!in)
                    return false;
                in->k += 2;
                break;
            case 1:
                if (!ctl)
                    return false;
                ctl->g = 8;
                break;
            case 2:
                ctl.reset(new Ctl());
                ctl->g = 4;
                p->setController(ctl);
                break;
            case 3:
                p->setController(std::make_shared<Ctl>());
                break;
        }
        return true;
    }
    void observe(Obs& o) override
    {
        mc::Quiet q;
        StateVector<3> x, d;
        x << 0.5, -1, 0.25;
        p->computeControlledDynamics(x, 0.5, us[0], d);
        add(o, d);
        p->computeDynamics(x, 0.5, d);
        add(o, d);
        add(o, p->getLastControlAction());
    }
};
struct ODistCtl : Obj
{
    typedef ct::optcon::DisturbedSystemController<2, 1, 1> T;
    ODistCtl(Dup) {}
    ODistCtl() : p(new T()) {}
    CLONE(ODistCtl, T)
    std::shared_ptr<Ctl> ctl;
    int nMut() override { return 3; }
    bool mutate(int i) override
    {
        switch (i)
        {
            case 0: ctl.reset(new Ctl()), p->setController(ctl); break;
            case 1:
                if (!ctl)
                    return false;
                ctl->g = 8;
                break;
            case 2: p->setController(nullptr); break;
        }
        return true;
    }
    void observe(Obs& o) override
    {
        mc::Quiet q;
        StateVector<3> x;
        x << 0.5, -1, 0.25;
        U u;
        try
        {
            p->computeControl(x, 0.5, u);
            add(o, u);
        } catch (mc::EigenAssertion&)
        {
            throw;
        } catch (std::exception&)
        {
            o.push_back(-12345);
        }
    }
};
template <class T>
static void run(mc::Ctx& c)
{
    cloneRun(c, []() { return std::shared_ptr<Obj>(new T()); }, 2, c.thorough ? 3 : 2);
}
#define S(N, T) \
    MC_SUITE(N, "histories of up to 2 operations before and 2 (quick) / 3 (thorough) after cloning, on either object, incl. destroying the original") { run<T>(c); }
S(lti_system, OLti)
S(second_order_system, OSecond)
S(controlled_system, ONl)
typedef OSwitched<NL, ControlledSystem<2, 1>, SwitchedControlledSystem<2, 1>> OSw1;
typedef OSwitched<Lin, LinearSystem<2, 1>, SwitchedLinearSystem<2, 1>> OSw2;
typedef OSwitchedD<DNL, DiscreteControlledSystem<2, 1>, SwitchedDiscreteControlledSystem<2, 1>> OSw3;
typedef OSwitchedD<DLin, DiscreteLinearSystem<2, 1>, SwitchedDiscreteLinearSystem<2, 1>> OSw4;
S(switched_controlled, OSw1)
S(switched_linear, OSw2)
S(switched_discrete, OSw3)
S(switched_discrete_linear, OSw4)
typedef OSysLin<GENERAL, 1> OL1;
typedef OSysLin<SECOND_ORDER, 1> OL2;
typedef OSysLin<SECOND_ORDER, 0> OL3;
S(system_linearizer, OL1)
S(system_linearizer_2nd, OL2)
S(system_linearizer_1sided, OL3)
typedef ODSysLin<1> OL4;
typedef ODSysLin<0> OL5;
S(discrete_linearizer, OL4)
S(discrete_linearizer_1sided, OL5)
S(discretizer, ODiscretizer)
S(sensitivity, OSens)
S(state_feedback, OFeedback)
S(constant_controller, OConst)
S(constant_feedback, OConstFb)
S(step_controller, OStep)
S(pid, OPid)
S(derivatives_numdiff, ODerivNum)
S(derivatives_cppad, ODerivAd)
S(input_disturbed_system, ODist)
S(disturbed_controller, ODistCtl)
