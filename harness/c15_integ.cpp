#include "sys.hpp"
using namespace mon;
using namespace ct::core;
static const int N = 3, M = 2;
typedef Dyn<N, M> D;
typedef D::X X;
typedef D::U U;
typedef StateVector<N> SV;
typedef std::shared_ptr<EventHandler<N>> HP;
typedef Integrator<N>::EventHandlerPtrVector HV;

struct Rec : EventHandler<N>
{
    std::vector<std::pair<X, double>> ev;
    bool sub;
    long resets = 0;
    int stopAt = -1;
    int every = 0;  // every so many calls an event is reported, which must be handled at once
    std::vector<std::pair<X, double>> due, handled;
    Rec(bool s) : sub(s) {}
    bool callOnSubsteps() override { return sub; }
    bool checkEvent(const SV& x, const double& t) override
    {
        ev.push_back({x, t});
        if (every && ev.size() % every == 0) { due.push_back({x, t}); return true; }
        return stopAt >= 0 && (int)ev.size() == stopAt;
    }
    void handleEvent(const SV& x, const double& t) override
    {
        if (stopAt >= 0 && (int)ev.size() == stopAt) throw std::domain_error("stopped");
        handled.push_back({x, t});
    }
    void reset() override { ++resets; ev.clear(); due.clear(); handled.clear(); }
};

static const char* NM[] = {"EULER", "RK4", "MODIFIED_MIDPOINT", "ODE45", "RK5VARIABLE", "RK78", "BULIRSCHSTOER", "EULERCT", "RK4CT"};

// dormand-prince 5th order step
template <class F>
X dopri(const F& f, const X& x, double t, double h)
{
    X k1 = f(x, t), k2 = f(X(x + h * (1. / 5 * k1)), t + h / 5), k3 = f(X(x + h * (3. / 40 * k1 + 9. / 40 * k2)), t + 3 * h / 10),
      k4 = f(X(x + h * (44. / 45 * k1 - 56. / 15 * k2 + 32. / 9 * k3)), t + 4 * h / 5),
      k5 = f(X(x + h * (19372. / 6561 * k1 - 25360. / 2187 * k2 + 64448. / 6561 * k3 - 212. / 729 * k4)), t + 8 * h / 9),
      k6 = f(X(x + h * (9017. / 3168 * k1 - 355. / 33 * k2 + 46732. / 5247 * k3 + 49. / 176 * k4 - 5103. / 18656 * k5)), t + h);
    return x + h * (35. / 384 * k1 + 500. / 1113 * k3 + 125. / 192 * k4 - 2187. / 6784 * k5 + 11. / 84 * k6);
}
template <class F>
X midpoint(const F& f, const X& x, double t, double dt)
{
    double h = dt / 2;
    X x1 = x + h * f(x, t);
    X x2 = x + 2 * h * f(x1, t + h);
    return 0.5 * (x1 + x2 + h * f(x2, t + dt));
}
template <class F>
X refStep(const F& f, int type, const X& x, double t, double h, double& tol)
{
    tol = 1e-9;
    switch (type)
    {
        case EULER: case EULERCT: return eulerStep(f, x, t, h);
        case RK4: case RK4CT: return rk4Step(f, x, t, h);
        case MODIFIED_MIDPOINT: return midpoint(f, x, t, h);
        case ODE45: case RK5VARIABLE: return dopri(f, x, t, h);
        case RK78: tol = 1e-8; return fine(f, x, t, t + h, 1e-3);
        default: tol = 3e-6; return fine(f, x, t, t + h, 1e-3);
    }
}

struct Setup
{
    D d;
    U u;
    SV x0;
    double t0;
    std::shared_ptr<DynSys<N, M>> sys;
    long evals = 0;
    Setup(Case& c)
    {
        d = D::random(c.rng, c.rng.coin(0.2) ? 0.0 : 0.7, c.rng.coin(0.8));
        u = c.rng.mat<M, 1>();
        x0 = c.rng.mat<N, 1>();
        t0 = c.rng.coin(0.3) ? 0.0 : c.rng.uni(-2, 5);
        ControlVector<M> uu = u;
        auto ctl = std::make_shared<ConstantController<N, M>>(uu);
        sys = std::make_shared<DynSys<N, M>>(d, ctl);
        sys->evals = &evals;
    }
    X f(const X& x, double t) const { return d.fd(x, u, t); }
};

static void checkHist(Case& c, const std::string& tag, const std::vector<std::pair<X, double>>& ev, const StateVectorArray<N>& xs, const std::vector<double>& ts)
{
    // every recorded point must have been shown to per-step handlers, in order
    if (!c.check(tag + "-handler-count", ev.size() == xs.size(), "handler saw " + str(ev.size()) + " of " + str(xs.size()) + " points")) return;
    for (size_t i = 0; i < ev.size(); ++i)
    {
        c.nearm(tag + "-handler-state", ev[i].first, xs[i], 0);
        c.near(tag + "-handler-time", ev[i].second, ts[i], 0);
    }
}

static void checkHandled(Case& c, const std::string& tag, const Rec& a)
{
    c.check(tag + "-events-handled", a.due == a.handled, "handled " + str(a.handled.size()) + " of " + str(a.due.size()) + " reported events");
}
SCENARIO_W(nsteps, 5)
{
    Setup s(c);
    auto f = [&](const X& x, double t) { return s.f(x, t); };
    int type = c.rng.in(0, 8), type0 = c.rng.in(0, 8), n = c.rng.coin(0.1) ? 0 : c.rng.in(1, 12);
    bool change = c.rng.coin(0.3);
    double dt = c.rng.uni(0.005, type == RK78 || type == BULIRSCHSTOER ? 0.06 : 0.15);
    c.cfg = std::string(NM[type]) + " n=" + str(n) + " dt=" + str(dt) + " t0=" + str(s.t0);
    c.sig.i(type);
    auto rec = std::make_shared<Rec>(false);
    auto sub = std::make_shared<Rec>(true);
    HV hv;
    // several handlers of each kind, with events at the same instants
    auto rec2 = std::make_shared<Rec>(false), sub2 = std::make_shared<Rec>(true);
    if (c.rng.coin()) rec->every = c.rng.in(1, 4);
    if (c.rng.coin()) rec2->every = c.rng.in(1, 4);
    if (c.rng.coin()) sub->every = c.rng.in(1, 4);
    if (c.rng.coin()) sub2->every = c.rng.in(1, 4);
    hv.push_back(rec);
    hv.push_back(sub);
    hv.insert(hv.begin() + c.rng.in(0, 2), rec2);
    hv.insert(hv.begin() + c.rng.in(0, 3), sub2);
    Integrator<N> integ(s.sys, IntegrationType(change ? type0 : type), hv);
    auto all = [&] {
        c.check("second-handler", rec2->ev == rec->ev && sub2->ev == sub->ev, "two handlers of one kind saw different points");
        checkHandled(c, "step", *rec); checkHandled(c, "step", *rec2); checkHandled(c, "substep", *sub); checkHandled(c, "substep", *sub2);
    };
    if (change) integ.changeIntegrationType(IntegrationType(type));
    int rounds = c.rng.in(1, 2);
    for (int r = 0; r < rounds; ++r)
    {
        StateVectorArray<N> xs;
        tpl::TimeArray<double> ts;
        if (c.rng.coin()) { xs.resize(3, SV::Zero()); ts.push_back(1); }  // results replace previous content
        SV x = s.x0;
        integ.integrate_n_steps(x, s.t0, n, dt, xs, ts);
        std::vector<double> tv(ts.begin(), ts.end());
        if (c.check("count", (int)xs.size() == n + 1 && (int)tv.size() == n + 1, "recorded " + str(xs.size()) + "/" + str(tv.size()) + " want " + str(n + 1)))
        {
            X y = s.x0;
            double tol = 1e-9;
            c.nearm("initial", xs[0], y, 0);
            for (int i = 0; i <= n; ++i)
            {
                c.near("time", tv[i], s.t0 + i * dt, 1e-10);
                if (i == 0) continue;
                y = refStep(f, type, X(xs[i - 1]), s.t0 + (i - 1) * dt, dt, tol);
                c.nearm("step", xs[i], y, tol);
            }
            c.nearm("final", x, xs.back(), 0);
            checkHist(c, "rec", rec->ev, xs, tv);
        }
        all();
        c.check("reset", rec->resets >= 1, "handlers not reset");
        long e0 = s.evals;
        SV x2 = s.x0;
        integ.integrate_n_steps(x2, s.t0, n, dt);
        c.nearm("unrecorded-equals-recorded", x2, x, type == BULIRSCHSTOER ? 1e-6 : 1e-13);
        c.check("handlers-unrecorded", (int)rec->ev.size() == n + 1, "handler saw " + str(rec->ev.size()) + " points in unrecorded mode, want " + str(n + 1));
        all();
        // substep handlers see every evaluation of the dynamics, with the state and time of the evaluation
        c.check("substeps", (long)sub->ev.size() == s.evals - e0, "substep handler saw " + str(sub->ev.size()) + " of " + str(s.evals - e0) + " evaluations");
        if (type == RK4 || type == RK4CT || type == EULER || type == EULERCT)
        {
            bool rk = type == RK4 || type == RK4CT;
            int per = rk ? 4 : 1;
            if (c.check("substep-count", (int)sub->ev.size() == per * n, "substeps " + str(sub->ev.size())))
            {
                X y = s.x0;
                for (int i = 0; i < n; ++i)
                {
                    double t = s.t0 + i * dt;
                    c.nearm("substep-state", sub->ev[i * per].first, y, 1e-9);
                    c.near("substep-time", sub->ev[i * per].second, t, 1e-10);
                    if (rk)
                    {
                        X k1 = f(y, t), x2_ = y + 0.5 * dt * k1, k2 = f(x2_, t + dt / 2), x3 = y + 0.5 * dt * k2, k3 = f(x3, t + dt / 2), x4 = y + dt * k3;
                        c.nearm("substage2", sub->ev[i * 4 + 1].first, x2_, 1e-9);
                        c.nearm("substage3", sub->ev[i * 4 + 2].first, x3, 1e-9);
                        c.nearm("substage4", sub->ev[i * 4 + 3].first, x4, 1e-9);
                        c.near("substage-time", sub->ev[i * 4 + 3].second, t + dt, 1e-10);
                        c.near("substage-time", sub->ev[i * 4 + 1].second, t + dt / 2, 1e-10);
                        y = rk4Step(f, y, t, dt);
                    }
                    else
                        y = eulerStep(f, y, t, dt);
                }
            }
        }
    }
}

SCENARIO_W(constdt, 2)
{
    Setup s(c);
    auto f = [&](const X& x, double t) { return s.f(x, t); };
    int type = c.rng.in(0, 6), n = c.rng.in(1, 12);
    double dt = c.rng.uni(0.01, type == RK78 || type == BULIRSCHSTOER ? 0.06 : 0.12);
    double frac = c.rng.coin() ? 1e-6 : c.rng.uni(0.1, 0.9);
    double tf = s.t0 + (n + frac) * dt;
    c.cfg = std::string(NM[type]) + " n=" + str(n) + " dt=" + str(dt) + " frac=" + str(frac);
    auto rec = std::make_shared<Rec>(false);
    rec->every = c.rng.in(0, 3);
    Integrator<N> integ(s.sys, IntegrationType(type), rec);
    StateVectorArray<N> xs;
    tpl::TimeArray<double> ts;
    SV x = s.x0, x2 = s.x0;
    integ.integrate_const(x, s.t0, tf, dt, xs, ts);
    std::vector<double> tv(ts.begin(), ts.end());
    if (c.check("count", (int)xs.size() == n + 1 && (int)tv.size() == n + 1, "recorded " + str(xs.size()) + " want " + str(n + 1)))
    {
        double tol = 1e-9;
        c.nearm("initial", xs[0], s.x0, 0);
        for (int i = 0; i <= n; ++i)
        {
            c.near("time", tv[i], s.t0 + i * dt, 1e-10);
            if (i) c.nearm("step", xs[i], refStep(f, type, X(xs[i - 1]), s.t0 + (i - 1) * dt, dt, tol), tol);
        }
        c.nearm("final", x, xs.back(), 0);
        checkHist(c, "rec", rec->ev, xs, tv);
        checkHandled(c, "step", *rec);
    }
    integ.integrate_const(x2, s.t0, tf, dt);
    c.nearm("unrecorded-equals-recorded", x2, x, type == BULIRSCHSTOER ? 1e-6 : 1e-13);
    c.check("handlers-unrecorded", (int)rec->ev.size() == n + 1, "handler saw " + str(rec->ev.size()));
}

SCENARIO_W(adaptive, 3)
{
    Setup s(c);
    auto f = [&](const X& x, double t) { return s.f(x, t); };
    static const int T[] = {ODE45, RK5VARIABLE, BULIRSCHSTOER, RK4};
    int type = T[c.rng.in(0, 3)];
    double len = c.rng.uni(0.05, 2.0), tf = s.t0 + len, dt0 = c.rng.coin() ? 0.01 : c.rng.uni(0.001, 0.3);
    if (type == RK4) dt0 = std::min(dt0, 0.02);
    c.cfg = std::string(NM[type]) + " len=" + str(len) + " dt0=" + str(dt0) + " t0=" + str(s.t0);
    c.sig.i(type);
    auto rec = std::make_shared<Rec>(false);
    rec->every = c.rng.in(0, 3);
    Integrator<N> integ(s.sys, IntegrationType(type), rec);
    double tol = 2e-5;
    for (int r = 0; r < 2; ++r)
    {
        StateVectorArray<N> xs;
        tpl::TimeArray<double> ts;
        SV x = s.x0, x2 = s.x0;
        integ.integrate_adaptive(x, s.t0, tf, xs, ts, dt0);
        std::vector<double> tv(ts.begin(), ts.end());
        if (!c.check("count", xs.size() == tv.size() && xs.size() >= 2, "recorded " + str(xs.size()) + "/" + str(tv.size()))) return;
        c.nearm("initial", xs[0], s.x0, 0);
        c.near("start-time", tv[0], s.t0, 1e-12);
        c.near("end-time", tv.back(), tf, 1e-10);
        X y = s.x0;
        for (size_t i = 1; i < tv.size(); ++i)
        {
            c.check("increasing", tv[i] > tv[i - 1], str(tv[i - 1]) + " -> " + str(tv[i]));
            y = fine(f, y, tv[i - 1], tv[i]);
            c.nearm("accuracy", xs[i], y, tol);
        }
        c.nearm("final", x, xs.back(), 0);
        checkHist(c, "rec", rec->ev, xs, tv);
        checkHandled(c, "step", *rec);
        integ.integrate_adaptive(x2, s.t0, tf, dt0);
        c.nearm("unrecorded", x2, y, tol);
    }
    // error tolerances have to take effect
    if (type != ODE45 && type != RK5VARIABLE) return;
    double tols[2] = {1e-3, 1e-11};
    long ev[2];
    for (int k = 0; k < 2; ++k)
    {
        Integrator<N> i2(s.sys, IntegrationType(type));
        i2.setApadativeErrorTolerances(tols[k], tols[k]);
        SV x = s.x0;
        long e0 = s.evals;
        i2.integrate_adaptive(x, s.t0, tf, 0.5);
        ev[k] = s.evals - e0;
        X y = fine(f, X(s.x0), s.t0, tf, 1e-3);
        c.nearm(k ? "tight-tolerance" : "loose-tolerance", x, y, k ? 1e-8 : 0.2);
    }
    if (len > 1 && s.d.G.norm() > 0.5) c.check("tolerance-effort", ev[1] > ev[0], "evaluations at tol 1e-3: " + str(ev[0]) + ", at 1e-11: " + str(ev[1]));
}

SCENARIO_W(times, 2)
{
    Setup s(c);
    auto f = [&](const X& x, double t) { return s.f(x, t); };
    int type = c.rng.in(0, 6), n = c.rng.in(2, 10);
    tpl::TimeArray<double> ts;
    double t = s.t0;
    for (int i = 0; i < n; ++i) { ts.push_back(t); t += c.rng.uni(0.002, 0.3); }
    double dt0 = type == EULER || type == MODIFIED_MIDPOINT ? 1e-3 : 0.01;
    double tol = type == EULER ? 3e-2 : type == MODIFIED_MIDPOINT ? 1e-3 : 1e-5;
    c.cfg = std::string(NM[type]) + " n=" + str(n);
    auto rec = std::make_shared<Rec>(false);
    rec->every = c.rng.in(0, 3);
    Integrator<N> integ(s.sys, IntegrationType(type), rec);
    StateVectorArray<N> xs;
    SV x = s.x0;
    integ.integrate_times(x, ts, xs, dt0);
    if (!c.check("count", (int)xs.size() == n, "recorded " + str(xs.size()) + " want " + str(n))) return;
    X y = s.x0;
    c.nearm("initial", xs[0], y, 0);
    for (int i = 1; i < n; ++i)
    {
        y = fine(f, y, ts[i - 1], ts[i]);
        c.nearm("state-at-time", xs[i], y, tol);
    }
    std::vector<double> tv(ts.begin(), ts.end());
    checkHist(c, "rec", rec->ev, xs, tv);
    checkHandled(c, "step", *rec);
    if (type == EULER || type == RK4 || type == ODE45) c.nearm("final", x, y, tol);
}

SCENARIO_W(events, 2)
{
    Setup s(c);
    int type = c.rng.in(0, 8), n = c.rng.in(2, 12);
    double dt = c.rng.uni(0.005, 0.05);
    c.cfg = std::string(NM[type]) + " n=" + str(n);
    c.sig.i(type);
    // a handler that stops the integration at a given call
    {
        auto rec = std::make_shared<Rec>(c.rng.coin(0.3));
        rec->stopAt = c.rng.in(1, n);
        auto before = std::make_shared<Rec>(false);
        HV hv;
        hv.push_back(before);
        hv.push_back(rec);
        Integrator<N> integ(s.sys, IntegrationType(type), hv);
        SV x = s.x0;
        bool thrown = false;
        try { integ.integrate_n_steps(x, s.t0, n, dt); } catch (std::domain_error&) { thrown = true; }
        c.check("stops", thrown, "handler exception swallowed");
        c.check("stops-at-once", (int)rec->ev.size() == rec->stopAt, "handler called again after it stopped the integration");
        if (!rec->sub) c.check("all-handlers", before->ev.size() == rec->ev.size(), "first handler saw " + str(before->ev.size()));
        rec->stopAt = -1;
        x = s.x0;
        integ.integrate_n_steps(x, s.t0, n, dt);  // usable again after an abort
        StateVectorArray<N> xs;
        tpl::TimeArray<double> ts;
        SV y = s.x0;
        integ.integrate_n_steps(y, s.t0, n, dt, xs, ts);
        c.nearm("reusable", y, x, type == BULIRSCHSTOER ? 1e-6 : 1e-13);
        c.check("reusable-count", (int)xs.size() == n + 1, str(xs.size()));
    }
    {
        size_t mx = c.rng.in(1, 14);
        auto h = std::make_shared<MaxStepsEventHandler<N>>(mx);
        auto cnt = std::make_shared<Rec>(false);
        HV hv;
        hv.push_back(cnt);
        hv.push_back(h);
        Integrator<N> integ(s.sys, IntegrationType(type), hv);
        for (int r = 0; r < 2; ++r)
        {
            if (r) { mx = c.rng.in(1, 14); h->setMaxNumSteps(mx); }
            SV x = s.x0;
            bool thrown = false;
            try { integ.integrate_n_steps(x, s.t0, n, dt); } catch (std::runtime_error&) { thrown = true; }
            c.check("maxsteps", thrown == (cnt->ev.size() > mx) && cnt->ev.size() == (thrown ? mx + 1 : size_t(n + 1)),
                "limit " + str(mx) + " points seen " + str(cnt->ev.size()) + " thrown " + str(thrown));
        }
    }
    {
        struct Killer : Rec
        {
            std::shared_ptr<KillIntegrationEventHandler<N>> k;
            size_t at;
            Killer() : Rec(false) {}
            bool checkEvent(const SV& x, const double& t) override
            {
                ev.push_back({x, t});
                if (ev.size() == at) k->setEvent();
                return false;
            }
        };
        auto k = std::make_shared<KillIntegrationEventHandler<N>>();
        auto kk = std::make_shared<Killer>();
        kk->k = k;
        kk->at = c.rng.in(1, n + 3);
        HV hv;
        hv.push_back(kk);
        hv.push_back(k);
        Integrator<N> integ(s.sys, IntegrationType(type), hv);
        SV x = s.x0;
        bool thrown = false;
        try { integ.integrate_n_steps(x, s.t0, n, dt); } catch (std::runtime_error&) { thrown = true; }
        c.check("kill", thrown == (kk->at <= size_t(n + 1)) && kk->ev.size() == std::min<size_t>(kk->at, n + 1), "kill at " + str(kk->at) + " seen " + str(kk->ev.size()));
    }
    {
        auto sr = std::make_shared<SubstepRecorder<N, M>>(s.sys);
        Integrator<N> integ(s.sys, IntegrationType(type), sr);
        SV x = s.x0;
        long e0 = s.evals;
        integ.integrate_n_steps(x, s.t0, n, dt);
        c.check("recorder-count", (long)sr->getSubstates()->size() == s.evals - e0 && (long)sr->getSubcontrols()->size() == s.evals - e0, "recorder has " + str(sr->getSubstates()->size()));
        for (auto& u : *sr->getSubcontrols()) c.nearm("recorder-control", u, s.u, 0);
        if (sr->getSubstates()->size() > 0) c.nearm("recorder-first", sr->getSubstates()->front(), s.x0, 0);
        sr->setEnable(false);
        auto keep = sr->getSubstates();
        size_t ks = keep->size();
        integ.integrate_n_steps(x, s.t0, n, dt);
        c.check("recorder-disabled", sr->getSubstates()->size() == 0 && keep->size() == ks, "disabled recorder recorded, or changed handed-out data");
    }
}

SCENARIO(unsupported)
{
    Setup s(c);
    int type = c.rng.coin() ? EULER_SYM : RK_SYM, good = c.rng.in(0, 8);
    c.cfg = std::string("from ") + NM[good];
    bool thrown = false;
    try { Integrator<N> i(s.sys, IntegrationType(type)); } catch (std::runtime_error&) { thrown = true; }
    c.check("ctor-throws", thrown);
    Integrator<N> i(s.sys, IntegrationType(good));
    thrown = false;
    try { i.changeIntegrationType(IntegrationType(type)); } catch (std::runtime_error&) { thrown = true; }
    c.check("change-throws", thrown, "unsupported type accepted silently");
    SV x = s.x0;
    i.integrate_n_steps(x, s.t0, 1, 0.05);
    double tol;
    c.nearm("still-usable", x, refStep([&](const X& x, double t) { return s.f(x, t); }, good, X(s.x0), s.t0, 0.05, tol), tol);
    if (good == EULERCT || good == RK4CT)
    {
        int nthrow = 0;
        SV y = s.x0;
        StateVectorArray<N> xs;
        tpl::TimeArray<double> ts;
        ts.push_back(0); ts.push_back(1);
        try { i.integrate_const(y, 0, 1, 0.1); } catch (std::runtime_error&) { ++nthrow; }
        try { i.integrate_adaptive(y, 0, 1); } catch (std::runtime_error&) { ++nthrow; }
        try { i.integrate_times(y, ts, xs); } catch (std::runtime_error&) { ++nthrow; }
        c.check("unsupported-mode", nthrow == 3 && y == s.x0, "unsupported mode did not raise or changed the state");
    }
}
MON_MAIN
