#include "symsys.hpp"
using namespace mon;
using namespace ct::core;
static const int P = 2, M = 2, N = 4;
typedef SymDyn<P, M> SD;
typedef Eigen::Matrix<double, N, 1> X;
typedef SD::V V;
typedef SD::U U;
struct Rec : EventHandler<N>
{
    std::vector<std::pair<X, double>> ev;
    bool sub;
    int stopAt = -1;
    Rec(bool s) : sub(s) {}
    bool callOnSubsteps() override { return sub; }
    bool checkEvent(const StateVector<N>& x, const double& t) override
    {
        ev.push_back({x, t});
        return stopAt == (int)ev.size();
    }
    void handleEvent(const StateVector<N>&, const double&) override { throw std::domain_error("stop"); }
    void reset() override { ev.clear(); }
};
static double energy(const SD& d, const X& x)
{
    // H = 1/2 v'Vp v + 1/2 p'K p - sum S_ij... only defined for Q=I and diagonal S
    V p = x.head<P>(), v = x.tail<P>();
    double e = 0.5 * v.dot(d.Vp * v) + 0.5 * p.dot(d.K * p);
    for (int i = 0; i < P; ++i) e += d.S(i, i) * (1 - std::cos(p(i)));
    return e;
}

template <class I>
static void trajChecks(Case& c, I& integ, SD& d, std::shared_ptr<TvCtrl<N, M>> ctl, std::shared_ptr<Rec> st, std::shared_ptr<Rec> sub, bool euler, bool closed)
{
    int n = c.rng.coin(0.1) ? 0 : c.rng.in(1, 15);
    double t0 = c.rng.coin(0.3) ? 0 : c.rng.uni(-1, 4), dt = euler ? c.rng.uni(0.002, 0.1) : c.rng.uni(0.005, 0.05);
    c.cfg = std::string(euler ? "euler" : "rk") + " n=" + str(n) + " dt=" + str(dt) + " t0=" + str(t0) + " closed=" + str(closed);
    StateVector<N> x = c.rng.mat<N, 1>(), x0 = x, x2 = x;
    StateVectorArray<N> xs;
    tpl::TimeArray<double> ts;
    st->ev.clear(); sub->ev.clear();
    integ.integrate_n_steps(x, t0, n, dt, xs, ts);
    if (!c.check("count", (int)xs.size() == n + 1 && (int)ts.size() == n + 1, "recorded " + str(xs.size()))) return;
    c.nearm("initial", xs[0], x0, 0);
    c.nearm("final", x, xs.back(), 0);
    auto u = [&](const X& z, double t) -> U { return closed ? ctl->u(z, t) : U(U::Zero()); };
    auto full = [&](const X& z, double t) -> X {
        U uu = u(z, t);
        X o;
        o << d.pdot(z.head<P>(), z.tail<P>(), uu), d.vdot(z.head<P>(), z.tail<P>(), uu);
        return o;
    };
    for (int i = 0; i <= n; ++i)
    {
        c.near("time", ts[i], t0 + i * dt, 1e-11);
        if (!i) continue;
        X a = xs[i - 1];
        double t = t0 + (i - 1) * dt;
        if (euler)
        {
            V p1 = a.head<P>() + dt * d.pdot(a.head<P>(), a.tail<P>(), u(a, t));
            X mid = a;
            mid.head<P>() = p1;
            X b;
            b << p1, a.tail<P>() + dt * d.vdot(p1, a.tail<P>(), u(mid, t));
            c.nearm("euler-step", xs[i], b, 1e-11);
        }
        else
            c.nearm("rk-order", xs[i], fine(full, a, t, t + dt, 1e-3), 2e-7 + 20 * std::pow(dt, 5));
    }
    integ.integrate_n_steps(x2, t0, n, dt);
    c.nearm("unrecorded-equals-recorded", x2, x, 1e-14);
    // handlers (registered once, two integrations): substep = start of the step, step = end of the step
    if (c.check("substep-events", (int)sub->ev.size() == 2 * n, "substep handler saw " + str(sub->ev.size())) && c.check("step-events", (int)st->ev.size() >= 2 * n, "step handler saw " + str(st->ev.size())))
        for (int i = 0; i < n; ++i)
        {
            c.nearm("substep-state", sub->ev[i].first, xs[i], 0);
            c.near("substep-time", sub->ev[i].second, ts[i], 1e-12);
            c.nearm("substep-state2", sub->ev[n + i].first, xs[i], 1e-13);
            bool found = false;
            for (auto& e : st->ev) found |= e.first == xs[i + 1] && std::abs(e.second - ts[i + 1]) < 1e-9;
            c.check("step-event", found, "end state of step " + str(i) + " not shown to the step handler");
        }
    integ.reset();
    c.check("reset", st->ev.empty() && sub->ev.empty(), "handlers not reset");
    if (n > 1)
    {
        st->stopAt = c.rng.in(1, n - 1);
        bool thrown = false;
        StateVector<N> y = x0;
        try { integ.integrate_n_steps(y, t0, n, dt); } catch (std::domain_error&) { thrown = true; }
        c.check("stop", thrown && (int)st->ev.size() == st->stopAt, "stop event ignored");
        st->stopAt = -1;
    }
}

SCENARIO_W(euler, 3)
{
    bool closed = c.rng.coin(0.8);
    SD d = SD::random(c.rng, c.rng.coin(0.3));
    auto ctl = std::make_shared<TvCtrl<N, M>>(c.rng);
    const bool removed = !closed && c.rng.coin(), late = closed && c.rng.coin();
    auto sys = std::make_shared<SymSys<P, M>>(d, (closed && !late) || removed ? ctl : nullptr);
    if (removed || late)
    {
        // the control loop is opened (or closed) after the system was used
        IntegratorSymplecticEuler<P, P, M> warm(sys);
        StateVector<N> z = c.rng.mat<N, 1>();
        warm.integrate_n_steps(z, c.rng.uni(0, 1), 2, 0.05);
        sys->setController(late ? ctl : nullptr);
    }
    auto st = std::make_shared<Rec>(false), sub = std::make_shared<Rec>(true);
    IntegratorSymplecticEuler<P, P, M>::EventHandlerPtrVector hv;
    hv.push_back(st); hv.push_back(sub);
    IntegratorSymplecticEuler<P, P, M> integ(sys, hv);
    trajChecks(c, integ, d, ctl, st, sub, true, closed);
}
SCENARIO_W(rk, 2)
{
    SD d = SD::random(c.rng, true);
    auto ctl = std::make_shared<TvCtrl<N, M>>(c.rng);
    ctl->K.setZero();
    ctl->w = 0;
    bool closed = c.rng.coin(0.7);
    const bool removed = !closed && c.rng.coin(), late = closed && c.rng.coin();
    auto sys = std::make_shared<SymSys<P, M>>(d, (closed && !late) || removed ? ctl : nullptr);
    if (removed || late)
    {
        // the control loop is opened (or closed) after the system was used
        IntegratorSymplecticEuler<P, P, M> warm(sys);
        StateVector<N> z = c.rng.mat<N, 1>();
        warm.integrate_n_steps(z, c.rng.uni(0, 1), 2, 0.05);
        sys->setController(late ? ctl : nullptr);
    }
    auto st = std::make_shared<Rec>(false), sub = std::make_shared<Rec>(true);
    IntegratorSymplecticRk<P, P, M>::EventHandlerPtrVector hv;
    hv.push_back(st); hv.push_back(sub);
    IntegratorSymplecticRk<P, P, M> integ(sys, hv);
    trajChecks(c, integ, d, ctl, st, sub, false, closed);
}
template <class I>
static void structure(Case& c, bool euler)
{
    SD d = SD::random(c.rng, true);
    d.S = Eigen::Matrix<double, P, 1>(c.rng.mat<P, 1>(0.1, 0.6)).asDiagonal();
    auto sys = std::make_shared<SymSys<P, M>>(d);
    I integ(sys);
    double dt = c.rng.uni(0.01, 0.1);
    c.cfg = "dt=" + str(dt);
    // phase space volume of one step
    X x0 = c.rng.mat<N, 1>();
    Eigen::Matrix<double, N, N> J;
    int n = c.rng.in(1, 5);
    for (int j = 0; j < N; ++j)
    {
        StateVector<N> a = x0, b = x0;
        a(j) += 1e-5; b(j) -= 1e-5;
        integ.integrate_n_steps(a, 0, n, dt);
        integ.integrate_n_steps(b, 0, n, dt);
        J.col(j) = (a - b) / 2e-5;
    }
    c.near("volume", J.determinant(), 1.0, 1e-7);
    // symplecticity with respect to the canonical form (pdot = dH/dv)
    Eigen::Matrix<double, N, N> O = Eigen::Matrix<double, N, N>::Zero();
    O.topRightCorner<P, P>().setIdentity();
    O.bottomLeftCorner<P, P>() = -Eigen::Matrix<double, P, P>::Identity();
    c.nearm("symplectic", J.transpose() * O * J, O, 1e-7);
    // long-run energy error does not drift: maximum over the last half is no more than a constant times the first half
    StateVector<N> x = x0;
    double e0 = energy(d, x), m1 = 0, m2 = 0;
    int steps = c.thorough ? 4000 : 600;
    for (int i = 0; i < steps; ++i)
    {
        integ.integrate_n_steps(x, i * dt, 1, dt);
        double e = std::abs(energy(d, x) - e0);
        (i < steps / 2 ? m1 : m2) = std::max(i < steps / 2 ? m1 : m2, e);
    }
    double scale = e0 + 0.1;
    c.check("energy-bound", m1 < (euler ? 3 * dt : 1e-3 * dt) * scale + 1e-9, "energy error " + str(m1) + " of " + str(e0) + " dt " + str(dt));
    c.check("energy-drift", m2 < 2.5 * m1 + 1e-9, "energy error grows from " + str(m1) + " to " + str(m2));
    c.nontrivial = true;
    c.sig.d(m1);
}
SCENARIO(structure_euler) { structure<IntegratorSymplecticEuler<P, P, M>>(c, true); }
SCENARIO(structure_rk) { structure<IntegratorSymplecticRk<P, P, M>>(c, false); }
SCENARIO(dynamics)
{
    // the symplectic system seen as an ordinary controlled system
    SD d = SD::random(c.rng, false);
    auto ctl = std::make_shared<TvCtrl<N, M>>(c.rng);
    SymSys<P, M> sys(d, ctl);
    StateVector<N> x = c.rng.mat<N, 1>(), dx;
    double t = c.rng.uni(0, 5);
    sys.computeDynamics(x, t, dx);
    U u = ctl->u(x, t);
    X w;
    w << d.pdot(x.head<P>(), x.tail<P>(), u), d.vdot(x.head<P>(), x.tail<P>(), u);
    c.nearm("dynamics", dx, w, 1e-12);
    c.nearm("last-control", sys.getLastControlAction(), u, 1e-14);
    c.check("flag", sys.isSymplectic());
    // recorded substep control of a symplectic integration equals the control that was applied
    auto s2 = std::make_shared<SymSys<P, M>>(d, ctl);
    auto sr = std::make_shared<SubstepRecorder<N, M>>(s2);
    IntegratorSymplecticEuler<P, P, M> integ(s2, sr);
    int n = c.rng.in(1, 6);
    double dt = c.rng.uni(0.01, 0.1);
    ctl->K.setZero();
    StateVector<N> y = x;
    integ.integrate_n_steps(y, t, n, dt);
    if (c.check("sub-count", (int)sr->getSubcontrols()->size() == n && (int)sr->getSubstates()->size() == n, str(sr->getSubcontrols()->size())))
        for (int i = 0; i < n; ++i) c.nearm("sub-control", (*sr->getSubcontrols())[i], ctl->u(x, t + i * dt), 1e-9);
}
MON_MAIN
