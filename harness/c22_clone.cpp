// C22: clones behave like the original and share no mutable state with it.
// Oracle: twin objects.  Every object under test has a twin that is rebuilt from scratch by replaying the same history
// and was never involved in any cloning; original and clone must keep behaving like their twins whatever happens to the
// other side, in the same thread or in another one.
#include "cons.hpp"
#include "cost.hpp"
#include <ct/rbd/state/JointState.h>
#include <ct/rbd/robot/actuator/ActuatorDynamics.h>
#include <ct/rbd/robot/actuator/SEADynamicsFirstOrder.h>
#include <ct/rbd/robot/actuator/SecondOrderActuatorDynamics.h>
#include <ct/rbd/robot/actuator/SEADynamicsFirstOrder-impl.h>
#include <ct/rbd/robot/actuator/SecondOrderActuatorDynamics-impl.h>
#include <thread>
using namespace mon;
using namespace ct::core;
using namespace ct::optcon;

static const int N = 4, M = 2;
typedef StateVector<N> X;
typedef ControlVector<M> U;
typedef Dyn<N, M> D;

struct Out
{
    std::vector<double> v;
    void d(double x) { v.push_back(x); }
    template <class E> void m(const Eigen::MatrixBase<E>& e)
    {
        auto x = e.eval();
        v.push_back(x.rows()); v.push_back(x.cols());
        for (int j = 0; j < x.cols(); ++j) for (int i = 0; i < x.rows(); ++i) v.push_back(double(x(i, j)));
    }
    void s(const std::string& x) { v.push_back(double(std::hash<std::string>()(x) % 1000003)); }
};
// handles to the objects handed to the object under test; cleared for clones
struct Deps
{
    std::vector<std::function<void(Rng&)>> f;
    bool active = true;
    void poke(Rng& r) { uint64_t k = r.next(); if (active && !f.empty()) f[k % f.size()](r); }
};
template <class T>
struct Spec
{
    std::function<std::shared_ptr<T>(Rng&, Deps&)> make;
    std::vector<std::function<void(T&, Rng&, Deps&)>> ops;
    std::function<void(T&, Rng&, Out&)> obs;
    std::function<T*(const T&)> dup;
    bool threads = true;
};
struct Ev { bool obs; uint64_t seed; };
template <class T>
struct World
{
    const Spec<T>* sp;
    Deps deps;
    std::shared_ptr<T> o;
    Out apply(const Ev& e)
    {
        Rng r(e.seed);
        r.next();
        Out out;
        if (e.obs) sp->obs(*o, r, out);
        else if (r.coin(0.35) && !deps.f.empty()) deps.poke(r);
        else if (!sp->ops.empty()) sp->ops[r.in(0, sp->ops.size() - 1)](*o, r, deps);
        return out;
    }
};
template <class T>
static World<T> build(const Spec<T>& sp, uint64_t seed)
{
    World<T> w;
    w.sp = &sp;
    Rng r(seed);
    r.next();
    w.o = sp.make(r, w.deps);
    return w;
}
static void same(Case& c, const char* who, const Out& a, const Out& b)
{
    bool ok = a.v.size() == b.v.size();
    size_t at = 0;
    for (size_t i = 0; ok && i < a.v.size(); ++i)
    {
        double x = a.v[i], y = b.v[i];
        if (x == y || (std::isnan(x) && std::isnan(y))) continue;
        if (!(std::abs(x - y) <= 1e-11 * (1 + std::abs(y)))) { ok = false; at = i; }
    }
    c.check(who, ok, "sizes " + str(a.v.size()) + "/" + str(b.v.size()) + " first difference at output " + str(at) + ": " + (at < a.v.size() && at < b.v.size() ? full(a.v[at]) + " twin " + full(b.v[at]) : ""));
    if (!b.v.empty()) c.nontrivial = true;
    for (size_t i = 0; i < a.v.size() && i < 20; ++i) c.sig.d(a.v[i]);
}
template <class T>
static void run(Case& c, const Spec<T>& sp, const std::string& what)
{
    auto& r = c.rng;
    uint64_t s0 = r.next();
    World<T> a = build(sp, s0), a2 = build(sp, s0);
    std::vector<Ev> h;
    int pre = r.in(0, 6);
    for (int i = 0; i < pre; ++i)
    {
        h.push_back({r.coin(0.4), r.next()});
        same(c, "original-before", a.apply(h.back()), a2.apply(h.back()));
    }
    World<T> b;
    b.sp = &sp;
    b.deps.active = false;
    b.o.reset(sp.dup(*a.o));
    b.deps.f = a.deps.f;   // same number of entries so that both twins draw alike; inactive
    World<T> b2 = build(sp, s0);
    for (auto& e : h) b2.apply(e);
    b2.deps.active = false;
    int depth = r.in(0, 2);
    for (int i = 0; i < depth; ++i)   // clones of clones, the intermediate ones destroyed
    {
        std::shared_ptr<T> nb(sp.dup(*b.o));
        b.o = nb;
    }
    bool par = sp.threads && r.coin(0.4);
    int firstDies = r.in(0, 2);   // 0 original, 1 clone, 2 none
    c.cfg = what + " pre " + str(pre) + " depth " + str(depth) + (par ? " threads" : "") + " dies " + str(firstDies);
    Ev e{true, r.next()};
    same(c, "clone-initial", b.apply(e), b2.apply(e));
    same(c, "original-initial", a.apply(e), a2.apply(e));
    if (par)
    {
        std::vector<Ev> ha, hb;
        for (int i = r.in(3, 10); i > 0; --i) ha.push_back({r.coin(), r.next()});
        for (int i = r.in(3, 10); i > 0; --i) hb.push_back({r.coin(), r.next()});
        std::vector<Out> oa, ob;
        std::thread ta([&] { for (auto& x : ha) oa.push_back(a.apply(x)); });
        std::thread tb([&] { for (auto& x : hb) ob.push_back(b.apply(x)); });
        ta.join();
        tb.join();
        for (size_t i = 0; i < ha.size(); ++i) same(c, "original-parallel", oa[i], a2.apply(ha[i]));
        for (size_t i = 0; i < hb.size(); ++i) same(c, "clone-parallel", ob[i], b2.apply(hb[i]));
    }
    else
        for (int i = r.in(3, 14); i > 0; --i)
        {
            Ev x{r.coin(), r.next()};
            bool onA = r.coin();
            if (onA) same(c, "original", a.apply(x), a2.apply(x)); else same(c, "clone", b.apply(x), b2.apply(x));
            if (!x.obs)
            {
                Ev q{true, r.next()};
                same(c, "original-after", a.apply(q), a2.apply(q));
                same(c, "clone-after", b.apply(q), b2.apply(q));
            }
        }
    if (firstDies == 0) { a.o.reset(); a.deps = Deps(); }
    if (firstDies == 1) b.o.reset();
    for (int i = r.in(1, 4); i > 0; --i)
    {
        Ev x{r.coin(0.6), r.next()}, q{true, r.next()};
        if (a.o) { same(c, "original-survivor", a.apply(x), a2.apply(x)); same(c, "original-survivor", a.apply(q), a2.apply(q)); }
        if (b.o && (firstDies == 0 || i % 2)) { same(c, "clone-survivor", b.apply(x), b2.apply(x)); same(c, "clone-survivor", b.apply(q), b2.apply(q)); }
    }
}
static X rx(Rng& r) { return X(r.mat<N, 1>(-2, 2)); }
static U ru(Rng& r) { return U(r.mat<M, 1>(-2, 2)); }

// ---------------------------------------------------------------- controllers
typedef Controller<N, M> Ctrl;
static FeedbackMatrix<N, M> rK(Rng& r) { return FeedbackMatrix<N, M>(r.mat<M, N>()); }
static std::shared_ptr<StateFeedbackController<N, M>> sfb(Rng& r)
{
    int n = r.in(1, 5);
    StateVectorArray<N> x; ControlVectorArray<M> u; FeedbackArray<N, M> K;
    for (int i = 0; i < n; ++i) { x.push_back(rx(r)); u.push_back(ru(r)); K.push_back(rK(r)); }
    x.push_back(rx(r));
    return std::make_shared<StateFeedbackController<N, M>>(x, u, K, r.uni(0.1, 0.5), r.uni(-0.5, 0.5), r.coin() ? ZOH : LIN);
}
static void sfbPoke(StateFeedbackController<N, M>& s, Rng& r)
{
    if (r.coin())
    {
        int n = r.in(1, 5);
        DiscreteArray<X> x; DiscreteArray<U> u; DiscreteArray<FeedbackMatrix<N, M>> K; TimeArray t;
        double tt = r.uni(-0.5, 0.5);
        for (int i = 0; i <= n; ++i) { x.push_back(rx(r)); t.push_back(tt); tt += r.uni(0.05, 0.5); }
        for (int i = 0; i < n; ++i) { u.push_back(ru(r)); K.push_back(rK(r)); }
        s.update(x, u, K, t);
    }
    else
    {
        s.getReferenceStateTrajectory().front() = rx(r);
        s.getFeedforwardTrajectory().back() = ru(r);
        s.getFeedbackTrajectory().front() = rK(r);
    }
}
static std::shared_ptr<Ctrl> randomCtrl(Rng& r, Deps& d)
{
    switch (r.in(0, 2))
    {
        case 0:
        {
            U u = ru(r);
            auto p = std::make_shared<ConstantController<N, M>>(u);
            d.f.push_back([p](Rng& q) { p->setControl(ru(q)); });
            return p;
        }
        case 1:
        {
            auto p = std::make_shared<ConstantStateFeedbackController<N, M>>(ru(r), rx(r), rK(r));
            d.f.push_back([p](Rng& q) { p->updateControlLaw(ru(q), rx(q), rK(q)); });
            return p;
        }
        default:
        {
            auto p = sfb(r);
            d.f.push_back([p](Rng& q) { sfbPoke(*p, q); });
            return p;
        }
    }
}
static void ctrlObs(Ctrl& k, Rng& r, Out& o)
{
    U u;
    k.computeControl(rx(r), r.uni(-1, 3), u);
    o.m(u);
}
SCENARIO(ctrl_constant)
{
    Spec<ConstantController<N, M>> s;
    s.make = [](Rng& r, Deps&) { U u = ru(r); return std::make_shared<ConstantController<N, M>>(u); };
    s.ops = {[](ConstantController<N, M>& k, Rng& r, Deps&) { k.setControl(ru(r)); }};
    s.obs = [](ConstantController<N, M>& k, Rng& r, Out& o) { ctrlObs(k, r, o); U u; k.computeControl(rx(r), r.in(0, 5), u); o.m(u); o.m(k.getControl()); };
    bool cl = c.rng.coin();
    s.dup = [cl](const ConstantController<N, M>& k) { return cl ? k.clone() : new ConstantController<N, M>(k); };
    run(c, s, "ConstantController");
}
SCENARIO(ctrl_feedback)
{
    if (c.rng.coin())
    {
        typedef ConstantStateFeedbackController<N, M> K;
        Spec<K> s;
        s.make = [](Rng& r, Deps&) { return std::make_shared<K>(ru(r), rx(r), rK(r)); };
        s.ops = {[](K& k, Rng& r, Deps&) { if (r.coin()) k.updateControlLaw(ru(r), rx(r), rK(r)); else k.updateControlLaw(ru(r), rx(r)); }};
        s.obs = [](K& k, Rng& r, Out& o) { ctrlObs(k, r, o); };
        s.dup = [](const K& k) { return k.clone(); };
        run(c, s, "ConstantStateFeedbackController");
    }
    else
    {
        typedef StateFeedbackController<N, M> K;
        Spec<K> s;
        s.make = [](Rng& r, Deps&) { return sfb(r); };
        s.ops = {[](K& k, Rng& r, Deps&) { sfbPoke(k, r); }};
        s.obs = [](K& k, Rng& r, Out& o) {
            ctrlObs(k, r, o);
            U u;
            k.computeControl(rx(r), int(r.next() % k.uff().size()), u);
            o.m(u);
            for (auto& x : k.x_ref()) o.m(x);
            for (auto& x : k.uff()) o.m(x);
            for (auto& x : k.K()) o.m(x);
            for (auto& x : k.time()) o.d(x);
        };
        bool cl = c.rng.coin();
        s.dup = [cl](const K& k) { return cl ? k.clone() : new K(k); };
        run(c, s, "StateFeedbackController");
    }
}
SCENARIO(ctrl_traj)
{
    typedef ConstantTrajectoryController<N, M> K;
    Spec<K> s;
    auto xs = [](Rng& r) { StateVectorArray<N> x; for (int i = r.in(1, 4); i > 0; --i) x.push_back(rx(r)); return x; };
    auto us = [](Rng& r) { ControlVectorArray<M> x; for (int i = r.in(1, 4); i > 0; --i) x.push_back(ru(r)); return x; };
    s.make = [=](Rng& r, Deps&) { auto u = us(r); auto x = xs(r); return std::make_shared<K>(u, x); };
    s.ops = {[=](K& k, Rng& r, Deps&) { k.setControlVectorArray(us(r)); }, [=](K& k, Rng& r, Deps&) { k.setStateVectorArray(xs(r)); }};
    s.obs = [](K& k, Rng&, Out& o) { for (auto& x : k.getStateVectorArray()) o.m(x); for (auto& x : k.getControlVectorArray()) o.m(x); };
    s.dup = [](const K& k) { return k.clone(); };
    run(c, s, "ConstantTrajectoryController");
}
SCENARIO_W(ctrl_pid, 2)
{
    typedef PIDController<double> K;
    Spec<K> s;
    auto par = [](Rng& r) { K::parameters_t p(r.uni(-2, 2), r.uni(-2, 2), r.uni(-2, 2), r.uni(0.01, 0.3), r.uni(0.1, 2), r.uni(0.5, 5), -r.uni(0.5, 5)); return p; };
    s.make = [=](Rng& r, Deps&) { auto p = par(r); return std::make_shared<K>(p, K::setpoint_t(r.uni(-1, 1), r.uni(-1, 1))); };
    s.ops = {[=](K& k, Rng& r, Deps&) { k.changeParameters(par(r)); }, [](K& k, Rng& r, Deps&) { k.setDesiredState(r.uni(-2, 2)); },
        [](K& k, Rng& r, Deps&) { double a = r.uni(-2, 2); k.setDesiredState(a, r.uni(-1, 1)); }, [](K& k, Rng& r, Deps&) { k.setInitialState(r.uni(-2, 2)); },
        [](K& k, Rng&, Deps&) { k.reset(); }, [](K& k, Rng& r, Deps&) { k.Parameters().k_i = r.uni(-2, 2); }};
    s.obs = [](K& k, Rng& r, Out& o) {
        double x = r.uni(-2, 2), v = r.uni(-2, 2);
        if (r.coin()) o.d(k.computeControl(x, 0.0)); else o.d(k.computeControl(x, v, 0.0));
    };
    bool cl = c.rng.coin();
    s.dup = [cl](const K& k) { return cl ? k.clone() : new K(k); };
    run(c, s, "PIDController");
}
SCENARIO(ctrl_step)
{
    typedef StepInputController K;
    Spec<K> s;
    s.make = [](Rng& r, Deps&) { K::Parameters p; p.gain = r.uni(-2, 2); p.t_step = r.uni(0, 2); return std::make_shared<K>(p); };
    s.obs = [](K& k, Rng& r, Out& o) { ControlVector<1> u; StateVector<1> x; x(0) = 0; k.computeControl(x, r.uni(-1, 3), u); o.m(u); };
    s.dup = [](const K& k) { return k.clone(); };
    run(c, s, "StepInputController");
}
// ---------------------------------------------------------------- continuous-time systems
template <class S>
static void addCtrl(Spec<S>& s)
{
    s.ops.push_back([](S& o, Rng& r, Deps& d) { Deps nd; auto k = randomCtrl(r, nd); o.setController(k); d.f = nd.f; });
}
template <class S>
static void sysObs(S& o, Rng& r, Out& out)
{
    X dx;
    dx.setConstant(7);
    double t = r.uni(-1, 4);
    o.computeDynamics(rx(r), t, dx);
    out.m(dx);
    o.computeControlledDynamics(rx(r), t, ru(r), dx);
    out.m(dx);
    out.d(o.getType());
    out.d(o.isSymplectic());
    out.m(o.getLastControlAction());
    std::shared_ptr<Ctrl> k;
    o.getController(k);
    out.d(bool(k));
}
SCENARIO(sys_second_order)
{
    typedef SecondOrderSystem S;
    Spec<S> s;
    auto kk = [](Rng& r, Deps& d) -> std::shared_ptr<Controller<2, 1>> {
        ControlVector<1> u; u(0) = r.uni(-2, 2);
        auto p = std::make_shared<ConstantController<2, 1>>(u);
        d.f.push_back([p](Rng& q) { ControlVector<1> v; v(0) = q.uni(-2, 2); p->setControl(v); });
        return p;
    };
    s.make = [kk](Rng& r, Deps& d) { double w = r.uni(0.5, 5), z = r.uni(0, 2), g = r.uni(0.1, 3); bool k = r.coin(); return std::make_shared<S>(w, z, g, k ? kk(r, d) : nullptr); };
    s.ops = {[](S& o, Rng& r, Deps&) { double w = r.uni(0.5, 5), z = r.uni(0, 2); o.setDynamics(w, z, r.uni(0.1, 3)); }, [kk](S& o, Rng& r, Deps& d) { Deps n; o.setController(kk(r, n)); d.f = n.f; }};
    s.obs = [](S& o, Rng& r, Out& out) {
        StateVector<2> x = r.mat<2, 1>(), dx; ControlVector<1> u; u(0) = r.uni(-1, 1);
        o.computeDynamics(x, 0.0, dx); out.m(dx);
        o.computeControlledDynamics(x, 0.0, u, dx); out.m(dx);
        out.d(o.getType());
    };
    s.dup = [](const S& o) { return o.clone(); };
    run(c, s, "SecondOrderSystem");
}
static std::shared_ptr<LTISystem<N, M>> lti(Rng& r)
{
    StateMatrix<N> A; A = r.mat<N, N>(); StateControlMatrix<N, M> B; B = r.mat<N, M>();
    return std::make_shared<LTISystem<N, M>>(A, B);
}
static void ltiPoke(LTISystem<N, M>& o, Rng& r)
{
    switch (r.in(0, 3))
    {
        case 0: o.A()(r.in(0, N - 1), r.in(0, N - 1)) = r.uni(-2, 2); break;
        case 1: o.B()(r.in(0, N - 1), r.in(0, M - 1)) = r.uni(-2, 2); break;
        case 2: o.C()(r.in(0, N - 1), r.in(0, N - 1)) = r.uni(-2, 2); break;
        default: o.D()(r.in(0, N - 1), r.in(0, M - 1)) = r.uni(-2, 2);
    }
}
SCENARIO_W(sys_lti, 2)
{
    typedef LTISystem<N, M> S;
    Spec<S> s;
    s.make = [](Rng& r, Deps&) { return lti(r); };
    s.ops = {[](S& o, Rng& r, Deps&) { ltiPoke(o, r); }};
    addCtrl(s);
    s.obs = [](S& o, Rng& r, Out& out) { sysObs(o, r, out); out.m(o.A()); out.m(o.B()); out.m(o.getDerivativeState(rx(r), ru(r))); out.m(o.getDerivativeControl(rx(r), ru(r))); };
    bool cl = c.rng.coin();
    s.dup = [cl](const S& o) { return cl ? o.clone() : new S(o); };
    run(c, s, "LTISystem");
}
static ContinuousModeSequence modes(Rng& r)
{
    ContinuousModeSequence q(r.uni(-0.5, 0.5));
    for (int i = r.in(1, 4); i > 0; --i) { size_t p = r.in(0, 2); q.addPhase(p, r.uni(0.1, 1)); }
    return q;
}
SCENARIO_W(sys_switched, 2)
{
    typedef SwitchedControlledSystem<N, M> S;
    Spec<S> s;
    s.make = [](Rng& r, Deps& d) {
        Switched<std::shared_ptr<ControlledSystem<N, M>>> ss;
        for (int i = 0; i < 3; ++i) { auto p = lti(r); d.f.push_back([p](Rng& q) { ltiPoke(*p, q); }); ss.push_back(p); }
        auto q = modes(r);
        return std::make_shared<S>(ss, q, r.coin() ? randomCtrl(r, d) : nullptr);
    };
    addCtrl(s);
    s.obs = [](S& o, Rng& r, Out& out) { sysObs(o, r, out); };
    s.dup = [](const S& o) { return o.clone(); };
    run(c, s, "SwitchedControlledSystem");
}
template <class S>
static void linObs(S& o, Rng& r, Out& out)
{
    double t = r.uni(-1, 4);
    out.m(o.getDerivativeState(rx(r), ru(r), t));
    out.m(o.getDerivativeControl(rx(r), ru(r), t));
    StateMatrix<N> A; StateControlMatrix<N, M> B;
    o.getDerivatives(A, B, rx(r), ru(r), t);
    out.m(A); out.m(B);
}
SCENARIO(sys_switched_linear)
{
    typedef SwitchedLinearSystem<N, M> S;
    Spec<S> s;
    s.make = [](Rng& r, Deps& d) {
        Switched<std::shared_ptr<LinearSystem<N, M>>> ss;
        for (int i = 0; i < 3; ++i) { auto p = lti(r); d.f.push_back([p](Rng& q) { ltiPoke(*p, q); }); ss.push_back(p); }
        auto q = modes(r);
        return std::make_shared<S>(ss, q);
    };
    addCtrl(s);
    s.obs = [](S& o, Rng& r, Out& out) { sysObs(o, r, out); linObs(o, r, out); };
    s.dup = [](const S& o) { return o.clone(); };
    run(c, s, "SwitchedLinearSystem");
}
struct TypedDyn : public DynSys<N, M>
{
    TypedDyn(const D& d, SYSTEM_TYPE t) : DynSys<N, M>(d) { type_ = t; }
    TypedDyn* clone() const override { return new TypedDyn(*this); }
    void computeControlledDynamics(const X& x, const double& t, const U& u, X& dx) override
    {
        DynSys<N, M>::computeControlledDynamics(x, t, u, dx);
        if (type_ == SECOND_ORDER) dx.head<N / 2>() = x.tail<N / 2>();
    }
};
static std::shared_ptr<TypedDyn> dynsys(Rng& r, Deps& d, bool so)
{
    auto p = std::make_shared<TypedDyn>(D::random(r), so ? SECOND_ORDER : GENERAL);
    d.f.push_back([p](Rng& q) { p->d = D::random(q); });
    return p;
}
SCENARIO_W(sys_linearizer, 2)
{
    typedef SystemLinearizer<N, M> S;
    Spec<S> s;
    s.make = [](Rng& r, Deps& d) { auto p = dynsys(r, d, r.coin()); return std::make_shared<S>(p, r.coin()); };
    addCtrl(s);
    // the handle to the nonlinear system must survive a change of the controller
    s.ops.back() = [](S& o, Rng& r, Deps& d) { Deps nd; auto k = randomCtrl(r, nd); o.setController(k); for (auto& f : nd.f) d.f.push_back(f); };
    s.obs = [](S& o, Rng& r, Out& out) { sysObs(o, r, out); linObs(o, r, out); };
    s.dup = [](const S& o) { return o.clone(); };
    run(c, s, "SystemLinearizer");
}
SCENARIO(sys_input_disturbed)
{
    typedef InputDisturbedSystem<N, M> S;
    Spec<S> s;
    s.make = [](Rng& r, Deps& d) { return std::make_shared<S>(dynsys(r, d, false)); };
    s.ops = {[](S& o, Rng& r, Deps& d) { auto k = randomCtrl(r, d); o.setController(k); }};
    s.obs = [](S& o, Rng& r, Out& out) {
        StateVector<N + M> x = r.mat<N + M, 1>(), dx;
        o.computeControlledDynamics(x, r.uni(0, 2), ru(r), dx);
        out.m(dx);
        std::shared_ptr<Controller<N + M, M>> k;
        o.getController(k);
        out.d(bool(k));
        if (k) { try { o.computeDynamics(x, 0.3, dx); out.m(dx); } catch (std::exception& e) { out.s(e.what()); } }
    };
    s.dup = [](const S& o) { return o.clone(); };
    run(c, s, "InputDisturbedSystem");
}
// ---------------------------------------------------------------- discrete-time systems
typedef DiscreteController<N, M> DCtrl;
static std::shared_ptr<DCtrl> randomDCtrl(Rng& r, Deps& d)
{
    if (r.coin())
    {
        U u = ru(r);
        auto p = std::make_shared<ConstantController<N, M>>(u);
        d.f.push_back([p](Rng& q) { p->setControl(ru(q)); });
        return p;
    }
    auto p = sfb(r);
    d.f.push_back([p](Rng& q) { p->getFeedforwardTrajectory().front() = ru(q); });
    return p;
}
template <class S>
static void addDCtrl(Spec<S>& s)
{
    s.ops.push_back([](S& o, Rng& r, Deps& d) { Deps nd; auto k = randomDCtrl(r, nd); o.setController(k); for (auto& f : nd.f) d.f.push_back(f); });
}
template <class S>
static void dsysObs(S& o, Rng& r, Out& out)
{
    X x;
    std::shared_ptr<DCtrl> k;
    o.getController(k);
    out.d(bool(k));
    o.propagateDynamics(rx(r), 0, x); out.m(x);
    o.propagateControlledDynamics(rx(r), r.in(0, 8), ru(r), x); out.m(x);
    out.d(o.getType());
}
static std::shared_ptr<DiscreteLTISystem<N, M>> dlti(Rng& r)
{
    StateMatrix<N> A, C; A = r.mat<N, N>(); C = r.mat<N, N>(); StateControlMatrix<N, M> B, DD; B = r.mat<N, M>(); DD = r.mat<N, M>();
    return std::make_shared<DiscreteLTISystem<N, M>>(A, B, C, DD);
}
static void dltiPoke(DiscreteLTISystem<N, M>& o, Rng& r)
{
    if (r.coin()) o.A()(r.in(0, N - 1), r.in(0, N - 1)) = r.uni(-2, 2);
    else o.B()(r.in(0, N - 1), r.in(0, M - 1)) = r.uni(-2, 2);
}
SCENARIO_W(dsys_lti, 2)
{
    typedef DiscreteLTISystem<N, M> S;
    Spec<S> s;
    s.make = [](Rng& r, Deps&) { return dlti(r); };
    s.ops = {[](S& o, Rng& r, Deps&) { dltiPoke(o, r); }};
    addDCtrl(s);
    s.obs = [](S& o, Rng& r, Out& out) { dsysObs(o, r, out); out.m(o.A()); out.m(o.B()); out.m(o.C()); out.m(o.D()); };
    s.dup = [](const S& o) { return o.clone(); };
    run(c, s, "DiscreteLTISystem");
}
static DiscreteModeSequence dmodes(Rng& r)
{
    DiscreteModeSequence q(0);
    for (int i = r.in(1, 4); i > 0; --i) { size_t p = r.in(0, 2); q.addPhase(p, r.in(1, 3)); }
    return q;
}
template <class S, class SS>
static void dswitched(Case& c, const char* name)
{
    Spec<S> s;
    s.make = [](Rng& r, Deps& d) {
        SS ss;
        for (int i = 0; i < 3; ++i) { auto p = dlti(r); d.f.push_back([p](Rng& q) { dltiPoke(*p, q); }); ss.push_back(p); }
        auto q = dmodes(r);
        return std::make_shared<S>(ss, q);
    };
    addDCtrl(s);
    s.obs = [](S& o, Rng& r, Out& out) { dsysObs(o, r, out); };
    s.dup = [](const S& o) { return o.clone(); };
    run(c, s, name);
}
SCENARIO(dsys_switched)
{
    if (c.rng.coin()) dswitched<SwitchedDiscreteControlledSystem<N, M>, Switched<std::shared_ptr<DiscreteControlledSystem<N, M>>>>(c, "SwitchedDiscreteControlledSystem");
    else dswitched<SwitchedDiscreteLinearSystem<N, M>, Switched<std::shared_ptr<DiscreteLinearSystem<N, M>>>>(c, "SwitchedDiscreteLinearSystem");
}
struct UDisc : public DiscreteControlledSystem<N, M>
{
    D d;
    UDisc(const D& dd) : d(dd) {}
    UDisc* clone() const override { return new UDisc(*this); }
    void propagateControlledDynamics(const X& x, const int n, const U& u, X& xn) override { xn = x + 0.1 * d.fd(x, u, n * 0.1); }
};
SCENARIO(dsys_linearizer)
{
    typedef DiscreteSystemLinearizer<N, M> S;
    Spec<S> s;
    s.make = [](Rng& r, Deps& d) { auto p = std::make_shared<UDisc>(D::random(r)); d.f.push_back([p](Rng& q) { p->d = D::random(q); }); return std::make_shared<S>(p, r.coin()); };
    addDCtrl(s);
    s.obs = [](S& o, Rng& r, Out& out) {
        dsysObs(o, r, out);
        int n = r.in(0, 5);
        out.m(o.getDerivativeState(rx(r), ru(r), n)); out.m(o.getDerivativeControl(rx(r), ru(r), n));
        StateMatrix<N> A; StateControlMatrix<N, M> B;
        X x = rx(r), xn = rx(r);
        o.getAandB(x, ru(r), xn, n, 1, A, B); out.m(A); out.m(B);
    };
    s.dup = [](const S& o) { return o.clone(); };
    run(c, s, "DiscreteSystemLinearizer");
}
struct SympDyn : public SymplecticSystem<2, 2, M>
{
    D d;
    SympDyn(const D& dd) : d(dd) {}
    SympDyn* clone() const override { return new SympDyn(*this); }
    void computePdot(const X& x, const StateVector<2>& v, const U&, StateVector<2>& p) override { p = v + 0.1 * x.head<2>(); }
    void computeVdot(const X& x, const StateVector<2>& p, const U& u, StateVector<2>& v) override
    {
        X y = x; y.head<2>() = p;
        v = d.fd(y, u, 0).tail<2>();
    }
};
SCENARIO_W(dsys_discretizer, 3)
{
    typedef SystemDiscretizer<N, M> S;
    Spec<S> s;
    bool symp = c.rng.coin(0.4), withRec = true;
    auto mk = [symp](Rng& r, Deps& d) -> std::shared_ptr<ControlledSystem<N, M>> {
        if (symp)
        {
            auto p = std::make_shared<SympDyn>(D::random(r));
            return p;
        }
        auto p = std::make_shared<TypedDyn>(D::random(r), GENERAL);
        return p;
    };
    auto ty = [symp](Rng& r) { int k = r.in(0, symp ? 6 : 4); return k == 5 ? EULER_SYM : k == 6 ? RK_SYM : k == 0 ? EULER : k == 1 ? RK4 : k == 2 ? EULERCT : k == 3 ? RK4CT : ODE45; };
    s.make = [=](Rng& r, Deps& d) {
        auto p = mk(r, d);
        double dt = r.uni(0.01, 0.2); auto t = ty(r); int k = r.in(1, 4);
        if (r.coin()) return std::make_shared<S>(p, dt, t, k);
        auto q = std::make_shared<S>(dt, t, k);
        q->changeContinuousTimeSystem(p);
        return q;
    };
    s.ops = {[=](S& o, Rng& r, Deps&) { o.setIntegrationType(ty(r)); o.initialize(); }, [=](S& o, Rng& r, Deps&) { double dt = r.uni(0.01, 0.2); o.setParameters(dt, r.in(1, 4)); },
        [=](S& o, Rng& r, Deps& d) { o.changeContinuousTimeSystem(mk(r, d)); }};
    addDCtrl(s);
    s.obs = [=](S& o, Rng& r, Out& out) {
        dsysObs(o, r, out);
        if (withRec)
        {
            if (o.getSubstates()) for (auto& x : *o.getSubstates()) out.m(x);
            if (o.getSubcontrols()) for (auto& x : *o.getSubcontrols()) out.m(x);
        }
    };
    s.dup = [](const S& o) { return o.clone(); };
    run(c, s, "SystemDiscretizer");
}
SCENARIO_W(sensitivity, 2)
{
    typedef SensitivityApproximation<N, M> S;
    typedef SensitivityApproximationSettings::APPROXIMATION AP;
    Spec<S> s;
    auto ap = [](Rng& r) { static const AP a[] = {AP::FORWARD_EULER, AP::BACKWARD_EULER, AP::SYMPLECTIC_EULER, AP::TUSTIN, AP::MATRIX_EXPONENTIAL}; return a[r.in(0, 4)]; };
    auto ls = [](Rng& r, Deps& d) -> std::shared_ptr<LinearSystem<N, M>> {
        if (r.coin()) { auto p = lti(r); d.f.push_back([p](Rng& q) { ltiPoke(*p, q); }); return p; }
        return std::make_shared<SystemLinearizer<N, M>>(dynsys(r, d, false));
    };
    s.make = [=](Rng& r, Deps& d) { double dt = r.uni(0.01, 0.2); auto a = ap(r); return std::make_shared<S>(dt, ls(r, d), a); };
    s.ops = {[=](S& o, Rng& r, Deps&) { o.setApproximation(ap(r)); }, [](S& o, Rng& r, Deps&) { o.setTimeDiscretization(r.uni(0.01, 0.2)); },
        [=](S& o, Rng& r, Deps& d) { Deps nd; o.setLinearSystem(ls(r, nd)); d.f = nd.f; }, [=](S& o, Rng& r, Deps&) { double dt = r.uni(0.01, 0.2); o.updateSettings(SensitivityApproximationSettings(dt, ap(r))); }};
    s.obs = [](S& o, Rng& r, Out& out) {
        StateMatrix<N> A; StateControlMatrix<N, M> B; A.setZero(); B.setZero();
        X x = rx(r), xn = rx(r);
        o.getAandB(x, ru(r), xn, r.in(0, 4), 1, A, B);
        out.m(A); out.m(B); out.d(int(o.getApproximation()));
    };
    s.dup = [](const S& o) { return o.clone(); };
    run(c, s, "SensitivityApproximation");
}
// ---------------------------------------------------------------- trajectories, phase sequences, derivatives
SCENARIO(traj_copy)
{
    typedef StateTrajectory<N> S;
    Spec<S> s;
    s.make = [](Rng& r, Deps&) { auto p = std::make_shared<S>(); p->setInterpolationType(r.coin() ? ZOH : LIN); double t = 0; for (int i = r.in(2, 6); i > 0; --i) { p->push_back(rx(r), t, true); t += r.uni(0.1, 1); } return p; };
    s.ops = {[](S& o, Rng& r, Deps&) { o.front() = rx(r); }, [](S& o, Rng& r, Deps&) { o.push_back(rx(r), o.finalTime() + 0.3, true); }, [](S& o, Rng& r, Deps&) { o.shiftTime(r.uni(-1, 1)); },
        [](S& o, Rng& r, Deps&) { o.setInterpolationType(r.coin() ? ZOH : LIN); }};
    s.obs = [](S& o, Rng& r, Out& out) { out.m(o.eval(r.uni(-1, 5))); out.d(o.size()); out.d(o.startTime()); out.d(o.finalTime()); };
    int k = c.rng.in(0, 1);
    s.dup = [k](const S& o) { if (k) return new S(o); auto p = new S(); *p = o; return p; };
    run(c, s, "StateTrajectory");
}
SCENARIO(phases)
{
    typedef ContinuousModeSequence S;
    Spec<S> s;
    s.make = [](Rng& r, Deps&) { return std::make_shared<S>(modes(r)); };
    s.ops = {[](S& o, Rng& r, Deps&) { size_t p = r.in(0, 2); o.addPhase(p, r.uni(0.1, 1)); }};
    s.obs = [](S& o, Rng& r, Out& out) { out.d(o.getNumPhases()); out.d(o.getPhaseFromTime(r.uni(-1, 4))); out.d(o.getTotalDuration()); out.d(o.getFinalPhase()); };
    int k = c.rng.in(0, 1);
    s.dup = [k](const S& o) { if (k) return new S(o); auto p = new S(9.0); *p = o; return p; };
    run(c, s, "PhaseSequence");
}
SCENARIO(derivatives)
{
    bool ds = c.rng.coin();
    typedef DerivativesNumDiff<N, M> S;
    Spec<S> s;
    s.make = [ds](Rng& r, Deps&) {
        Eigen::MatrixXd A = r.dmat(M, N);
        typename S::Function f = [A](const Eigen::Matrix<double, N, 1>& x) { return Eigen::Matrix<double, M, 1>(A * x.array().sin().matrix()); };
        return std::make_shared<S>(f, ds);
    };
    s.obs = [](S& o, Rng& r, Out& out) { Eigen::VectorXd x = rx(r); out.m(o.forwardZero(x)); out.m(o.jacobian(x)); };
    s.dup = [](const S& o) { return o.clone(); };
    run(c, s, "DerivativesNumDiff");
}
// ---------------------------------------------------------------- cost functions
template <class S>
static void costObs(S& o, Rng& r, Out& out)
{
    o.setCurrentStateAndControl(rx(r), ru(r), r.uni(0, 3));
    out.d(o.evaluateIntermediate()); out.d(o.evaluateTerminal());
    out.m(o.stateDerivativeIntermediate()); out.m(o.stateDerivativeTerminal());
    out.m(o.controlDerivativeIntermediate()); out.m(o.stateSecondDerivativeIntermediate());
    out.m(o.stateSecondDerivativeTerminal()); out.m(o.controlSecondDerivativeIntermediate()); out.m(o.stateControlDerivativeIntermediate());
}
template <class S>
static void costPoke(S& o, TermModel<N, M>& m, Rng& r)
{
}
SCENARIO_W(cost_analytical, 4)
{
    typedef CostFunctionAnalytical<N, M> S;
    Spec<S> s;
    s.make = [](Rng& r, Deps& d) {
        auto k = std::make_shared<S>();
        for (int i = r.in(0, 3); i > 0; --i)
        {
            auto m = randomCost<N, M>(r);
            auto t = m.make();
            if (auto q = std::dynamic_pointer_cast<TermQuadratic<N, M>>(t))
                d.f.push_back([q](Rng& z) { Eigen::Matrix<double, N, N> Q = z.mat<N, N>(); Eigen::Matrix<double, M, M> R = z.mat<M, M>(); q->setWeights(Q, R); });
            k->addIntermediateTerm(t);
        }
        for (int i = r.in(0, 2); i > 0; --i) k->addFinalTerm(randomCost<N, M>(r).make());
        return k;
    };
    s.ops = {[](S& o, Rng& r, Deps&) { auto t = randomCost<N, M>(r); o.addIntermediateTerm(t.make()); }, [](S& o, Rng& r, Deps&) { auto t = randomCost<N, M>(r); o.addFinalTerm(t.make()); },
        [](S& o, Rng& r, Deps&) { o.updateReferenceState(rx(r)); }, [](S& o, Rng& r, Deps&) { o.updateFinalState(rx(r)); }, [](S& o, Rng& r, Deps&) { o.updateReferenceControl(ru(r)); },
        [](S& o, Rng& r, Deps&) { o.shiftTime(r.uni(-0.3, 0.3)); }};
    // operations not supported by some terms throw: both twins must agree on that
    for (auto& f : s.ops) { auto g = f; f = [g](S& o, Rng& r, Deps& d) { try { g(o, r, d); } catch (std::exception&) {} }; }
    s.obs = [](S& o, Rng& r, Out& out) { try { costObs(o, r, out); } catch (std::exception& e) { out.s(e.what()); } };
    s.dup = [](const S& o) { return o.clone(); };
    run(c, s, "CostFunctionAnalytical");
}
SCENARIO_W(cost_simple, 2)
{
    typedef CostFunctionQuadraticSimple<N, M> S;
    Spec<S> s;
    s.make = [](Rng& r, Deps&) {
        Eigen::Matrix<double, N, N> Q = r.mat<N, N>(), Qf = r.mat<N, N>(); Eigen::Matrix<double, M, M> R = r.mat<M, M>();
        X xn = rx(r), xf = rx(r); U un = ru(r);
        return std::make_shared<S>(Q, R, xn, un, xf, Qf);
    };
    s.ops = {[](S& o, Rng& r, Deps&) { o.updateReferenceState(rx(r)); }, [](S& o, Rng& r, Deps&) { o.updateFinalState(rx(r)); }, [](S& o, Rng& r, Deps&) { o.updateReferenceControl(ru(r)); }};
    for (auto& f : s.ops) { auto g = f; f = [g](S& o, Rng& r, Deps& d) { try { g(o, r, d); } catch (std::exception&) {} }; }
    s.obs = [](S& o, Rng& r, Out& out) { costObs(o, r, out); };
    s.dup = [](const S& o) { return o.clone(); };
    run(c, s, "CostFunctionQuadraticSimple");
}
SCENARIO_W(cost_term, 3)
{
    typedef TermBase<N, M> S;
    Spec<S> s;
    // the term is rebuilt from the same seed for every twin
    s.make = [](Rng& r, Deps&) { auto m = randomCost<N, M>(r); return m.make(); };
    s.ops = {[](S& o, Rng& r, Deps&) { o.updateReferenceState(rx(r)); }, [](S& o, Rng& r, Deps&) { o.updateReferenceControl(ru(r)); }, [](S& o, Rng& r, Deps&) { o.setName("n" + str(r.in(0, 99))); },
        [](S& o, Rng& r, Deps&) { auto m = randomAct(r); if (m.obj) o.setTimeActivation(m.obj); }};
    for (auto& f : s.ops) { auto g = f; f = [g](S& o, Rng& r, Deps& d) { try { g(o, r, d); } catch (std::exception&) {} }; }
    s.obs = [](S& o, Rng& r, Out& out) {
        X x = rx(r); U u = ru(r); double t = r.uni(0, 3);
        out.s(o.getName());
        out.d(o.computeActivation(t));
        out.d(o.isActiveAtTime(t));
        try
        {
            out.d(o.eval(x, u, t));
            out.m(o.stateDerivative(x, u, t)); out.m(o.controlDerivative(x, u, t)); out.m(o.stateSecondDerivative(x, u, t));
            out.m(o.controlSecondDerivative(x, u, t)); out.m(o.stateControlDerivative(x, u, t));
        } catch (std::exception& e) { out.s(e.what()); }
    };
    s.dup = [](const S& o) { return o.clone(); };
    run(c, s, "Term");
}
// ---------------------------------------------------------------- constraints
static std::shared_ptr<ConstraintContainerAnalytical<N, M>> container(Rng& r, Deps& d)
{
    auto k = std::make_shared<ConstraintContainerAnalytical<N, M>>();
    for (int i = r.in(1, 3); i > 0; --i)
    {
        auto t = randomTerm<N, M>(r).first;
        if (auto q = std::dynamic_pointer_cast<NlCon<N, M>>(t)) d.f.push_back([q](Rng& z) { q->Cm(0, 0) = z.uni(-2, 2); });
        k->addIntermediateConstraint(t, false);
    }
    for (int i = r.in(1, 2); i > 0; --i)
    {
        auto t = randomTerm<N, M>(r).first;
        if (auto q = std::dynamic_pointer_cast<NlCon<N, M>>(t)) d.f.push_back([q](Rng& z) { q->Cm(0, 1) = z.uni(-2, 2); });
        k->addTerminalConstraint(t, false);
    }
    k->initialize();
    return k;
}
template <class S>
static void conObs(S& o, Rng& r, Out& out)
{
    o.setCurrentStateAndControl(rx(r), ru(r), r.uni(-1, 4));
    out.m(o.evaluateIntermediate()); out.m(o.evaluateTerminal());
    out.m(o.jacobianStateIntermediate()); out.m(o.jacobianInputIntermediate()); out.m(o.jacobianStateTerminal()); out.m(o.jacobianInputTerminal());
    out.m(o.jacobianStateSparseIntermediate()); out.m(o.jacobianInputSparseIntermediate()); out.m(o.jacobianStateSparseTerminal()); out.m(o.jacobianInputSparseTerminal());
    out.m(o.getLowerBoundsIntermediate()); out.m(o.getUpperBoundsIntermediate()); out.m(o.getLowerBoundsTerminal()); out.m(o.getUpperBoundsTerminal());
    out.m(o.getUpperBoundsViolationIntermediate()); out.m(o.getLowerBoundsViolationTerminal());
    out.d(o.getIntermediateConstraintsCount()); out.d(o.getTerminalConstraintsCount()); out.d(o.getJacobianStateNonZeroCountIntermediate()); out.d(o.getJacobianInputNonZeroCountTerminal());
}
SCENARIO_W(con_container, 3)
{
    typedef ConstraintContainerAnalytical<N, M> S;
    Spec<S> s;
    s.make = container;
    s.ops = {[](S& o, Rng& r, Deps&) { o.addIntermediateConstraint(randomTerm<N, M>(r).first, false); o.initialize(); }, [](S& o, Rng& r, Deps&) { o.addTerminalConstraint(randomTerm<N, M>(r).first, false); o.initialize(); },
        [](S& o, Rng& r, Deps&) { o.setCurrentStateAndControl(rx(r), ru(r), r.uni(0, 2)); }};
    s.obs = [](S& o, Rng& r, Out& out) { conObs(o, r, out); };
    s.dup = [](const S& o) { return o.clone(); };
    run(c, s, "ConstraintContainerAnalytical");
}
SCENARIO_W(con_switched, 2)
{
    typedef SwitchedLinearConstraintContainer<N, M> S;
    Spec<S> s;
    s.make = [](Rng& r, Deps& d) {
        typename S::SwitchedLinearConstraintContainers ss;
        for (int i = 0; i < 3; ++i) ss.push_back(container(r, d));
        auto q = modes(r);
        auto p = std::make_shared<S>(ss, q);
        p->initialize();
        return p;
    };
    s.ops = {[](S& o, Rng& r, Deps&) { o.setCurrentStateAndControl(rx(r), ru(r), r.uni(-1, 4)); }};
    s.obs = [](S& o, Rng& r, Out& out) {
        if (r.coin()) { out.m(o.evaluateIntermediate()); out.m(o.getUpperBoundsIntermediate()); }   // state carried by the object
        conObs(o, r, out);
    };
    s.dup = [](const S& o) { return o.clone(); };
    run(c, s, "SwitchedLinearConstraintContainer");
}
SCENARIO_W(con_term, 2)
{
    typedef ConstraintBase<N, M> S;
    Spec<S> s;
    s.make = [](Rng& r, Deps&) { return randomTerm<N, M>(r).first; };
    s.ops = {[](S& o, Rng& r, Deps&) { o.setName("c" + str(r.in(0, 99))); }};
    s.obs = [](S& o, Rng& r, Out& out) {
        X x = rx(r); U u = ru(r); double t = r.uni(0, 3);
        std::string nm; o.getName(nm); out.s(nm);
        out.m(o.evaluate(x, u, t)); out.m(o.jacobianState(x, u, t)); out.m(o.jacobianInput(x, u, t)); out.m(o.getLowerBound()); out.m(o.getUpperBound());
        out.d(o.getConstraintSize()); out.d(o.getNumNonZerosJacobianState()); out.d(o.getNumNonZerosJacobianInput());
        out.m(o.jacobianStateSparse(x, u, t)); out.m(o.jacobianInputSparse(x, u, t));
        Eigen::VectorXi ro, co;
        ro.resize(o.getNumNonZerosJacobianState()); co.resize(ro.size());
        o.sparsityPatternState(ro, co); out.m(ro); out.m(co);
    };
    s.dup = [](const S& o) { return o.clone(); };
    run(c, s, "Constraint");
}
// ---------------------------------------------------------------- actuators
SCENARIO(actuators)
{
    typedef ct::rbd::ActuatorDynamics<2 * M, M> S;
    Spec<S> s;
    s.make = [](Rng& r, Deps&) -> std::shared_ptr<S> { double w = r.uni(0.5, 4), z = r.uni(0, 2), g = r.uni(0.2, 2); return std::make_shared<ct::rbd::SecondOrderActuatorDynamics<M>>(w, z, g); };
    s.obs = [](S& o, Rng& r, Out& out) {
        ct::rbd::JointState<M> js; js.getPositions() = r.mat<M, 1>(); js.getVelocities() = r.mat<M, 1>();
        StateVector<2 * M> x = r.mat<2 * M, 1>(), dx; dx.setZero();
        o.computeActuatorDynamics(js, x, 0.0, ru(r), dx); out.m(dx); out.m(o.computeControlOutput(js, x)); out.m(o.computeStateFromOutput(js, ru(r)));
    };
    s.dup = [](const S& o) { return o.clone(); };
    run(c, s, "SecondOrderActuatorDynamics");
}
MON_MAIN
