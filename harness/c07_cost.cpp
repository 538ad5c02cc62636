// C07: derivatives of cost functions are the derivatives of the reported cost. C08: composition, activation, references, clones, files.
#include "cost.hpp"
using namespace mon;
using namespace ct::core;
using namespace ct::optcon;

// Everything a cost function reports, at one point. Values are queried in a random order.
template <int N, int M>
struct Rep
{
    double v[2];
    Eigen::Matrix<double, N, 1> gx[2]; Eigen::Matrix<double, M, 1> gu[2];
    Eigen::Matrix<double, N, N> hx[2]; Eigen::Matrix<double, M, M> hu[2]; Eigen::Matrix<double, M, N> hc[2];
};
template <int N, int M>
static Rep<N, M> report(Rng& r, CostFunctionQuadratic<N, M>& k, bool termU, bool disturb)
{
    Rep<N, M> o;
    std::vector<int> ord;
    for (int i = 0; i < 12; ++i) ord.push_back(i);
    for (int i = 11; i > 0; --i) std::swap(ord[i], ord[r.in(0, i)]);
    for (int q : ord)
    {
        if (disturb && r.coin(0.2)) { k.stateDerivativeIntermediateTest(); }
        if (disturb && r.coin(0.2)) { k.controlDerivativeIntermediateTest(); }
        switch (q)
        {
            case 0: o.v[0] = k.evaluateIntermediate(); break;
            case 1: o.v[1] = k.evaluateTerminal(); break;
            case 2: o.gx[0] = k.stateDerivativeIntermediate(); break;
            case 3: o.gx[1] = k.stateDerivativeTerminal(); break;
            case 4: o.gu[0] = k.controlDerivativeIntermediate(); break;
            case 5: o.gu[1].setZero(); if (termU) o.gu[1] = k.controlDerivativeTerminal(); break;
            case 6: o.hx[0] = k.stateSecondDerivativeIntermediate(); break;
            case 7: o.hx[1] = k.stateSecondDerivativeTerminal(); break;
            case 8: o.hu[0] = k.controlSecondDerivativeIntermediate(); break;
            case 9: o.hu[1].setZero(); if (termU) o.hu[1] = k.controlSecondDerivativeTerminal(); break;
            case 10: o.hc[0] = k.stateControlDerivativeIntermediate(); break;
            case 11: o.hc[1].setZero(); if (termU) o.hc[1] = k.stateControlDerivativeTerminal(); break;
        }
    }
    return o;
}
// five-point derivative of a function of one offset
static Eigen::VectorXd d5(const std::function<Eigen::VectorXd(double)>& f, double h) { return (f(-2 * h) - 8 * f(-h) + 8 * f(h) - f(2 * h)) / (12 * h); }

template <int N, int M>
static void checkDerivs(Case& c, const std::string& tag, CostFunctionQuadratic<N, M>& k, const StateVector<N>& x, const ControlVector<M>& u, double t, bool termU)
{
    const double h = 1e-3;
    k.setCurrentStateAndControl(x, u, t);
    Rep<N, M> o = report<N, M>(c.rng, k, termU, termU);
    auto at = [&](int i, double e) {
        StateVector<N> y = x; ControlVector<M> v = u;
        if (i < N) y(i) += e; else v(i - N) += e;
        k.setCurrentStateAndControl(y, v, t);
    };
    for (int z = 0; z < 2; ++z)
    {
        Eigen::Matrix<double, N + M, 1> g;
        Eigen::Matrix<double, N + M, N + M> H;
        for (int i = 0; i < N + M; ++i)
        {
            g(i) = d5([&](double e) { at(i, e); return Eigen::VectorXd::Constant(1, z ? k.evaluateTerminal() : k.evaluateIntermediate()); }, h)(0);
            H.col(i) = d5([&](double e) {
                at(i, e);
                Eigen::VectorXd w(N + M);
                w.setZero();
                w.template head<N>() = z ? k.stateDerivativeTerminal() : k.stateDerivativeIntermediate();
                if (!z) w.template tail<M>() = k.controlDerivativeIntermediate();
                else if (termU) w.template tail<M>() = k.controlDerivativeTerminal();
                return w;
            }, h);
        }
        std::string s = tag + (z ? "terminal-" : "");
        c.nearm(s + "state-gradient", o.gx[z], g.template head<N>(), 3e-7);
        c.nearm(s + "state-hessian", o.hx[z], H.template topLeftCorner<N, N>(), 3e-7);
        c.nearm(s + "state-hessian-symmetric", o.hx[z], o.hx[z].transpose(), 1e-12);
        if (z && !termU) continue;
        c.nearm(s + "control-gradient", o.gu[z], g.template tail<M>(), 3e-7);
        c.nearm(s + "control-hessian", o.hu[z], H.template bottomRightCorner<M, M>(), 3e-7);
        c.nearm(s + "control-hessian-symmetric", o.hu[z], o.hu[z].transpose(), 1e-12);
        c.nearm(s + "cross", o.hc[z], H.template bottomLeftCorner<M, N>(), 3e-7);
        c.nearm(s + "cross-other-order", o.hc[z].transpose(), H.template topRightCorner<N, M>(), 3e-7);
    }
    // asking again, after all of the queries above, gives bit-identical answers
    k.setCurrentStateAndControl(x, u, t);
    Rep<N, M> p = report<N, M>(c.rng, k, termU, false);
    bool same = true;
    for (int z = 0; z < 2; ++z) same = same && p.v[z] == o.v[z] && p.gx[z] == o.gx[z] && p.gu[z] == o.gu[z] && p.hx[z] == o.hx[z] && p.hu[z] == o.hu[z] && p.hc[z] == o.hc[z];
    c.check(tag + "requery", same, "a repeated query at the same point differs");
}

template <int N, int M>
static void derivs(Case& c)
{
    Rng& r = c.rng;
    CostModel<N, M> m;
    auto k = randomCostFunction<N, M>(r, m, 4, 3);
    std::shared_ptr<CostFunctionQuadratic<N, M>> cl(k->clone());
    double sh = r.coin(0.3) ? r.uni(-1, 1) : 0.0;
    c.cfg = m.names() + " shift " + str(sh);
    if (sh != 0) { k->shiftTime(sh); cl->shiftTime(sh); }
    StateVector<N> x;
    ControlVector<M> u;
    double t = 0;
    CostFunctionQuadratic<N, M>* w = nullptr;
    for (int q = 0; q < 3; ++q)
    {
        // a later query changes only a part of the point: nothing of the earlier one may survive
        int keep = q ? r.in(0, 7) : 0;
        if (!(keep & 1)) x = r.mat<N, 1>(-3, 3);
        if (!(keep & 2)) u = r.mat<M, 1>(-3, 3);
        if (!(keep & 4) || keep == 7) t = m.time(r, sh);
        if (!w || r.coin()) w = r.coin() ? (CostFunctionQuadratic<N, M>*)k.get() : cl.get();
        checkDerivs<N, M>(c, "", *w, x, u, t, true);
    }
    if (m.in.empty() && m.fi.empty()) c.nontrivial = true;
}
SCENARIO_W(derivs_3_2, 3) { derivs<3, 2>(c); }
SCENARIO(derivs_1_1) { derivs<1, 1>(c); }
SCENARIO(derivs_2_4) { derivs<2, 4>(c); }

template <int N, int M>
struct SimpleModel
{
    Eigen::Matrix<double, N, N> Q, QF; Eigen::Matrix<double, M, M> R; Eigen::Matrix<double, N, 1> xn, xf; Eigen::Matrix<double, M, 1> un;
    SimpleModel(Rng& r) { Q = r.spd(N); QF = r.spd(N); R = r.spd(M); xn = r.mat<N, 1>(); xf = r.mat<N, 1>(); un = r.mat<M, 1>(); }
    std::shared_ptr<CostFunctionQuadraticSimple<N, M>> make() const { return std::make_shared<CostFunctionQuadraticSimple<N, M>>(Q, R, StateVector<N>(xn), ControlVector<M>(un), StateVector<N>(xf), QF); }
    double v(const Eigen::Matrix<double, N, 1>& x, const Eigen::Matrix<double, M, 1>& u) const { return 0.5 * (x - xn).dot(Q * (x - xn)) + 0.5 * (u - un).dot(R * (u - un)); }
    double f(const Eigen::Matrix<double, N, 1>& x) const { return 0.5 * (x - xf).dot(QF * (x - xf)); }
};
SCENARIO(derivs_simple)
{
    Rng& r = c.rng;
    static const int N = 3, M = 2;
    SimpleModel<N, M> m(r);
    auto k = m.make();
    StateVector<N> x = r.mat<N, 1>(-3, 3);
    ControlVector<M> u = r.mat<M, 1>(-3, 3);
    checkDerivs<N, M>(c, "simple-", *k, x, u, r.uni(-1, 3), false);
}

// the built-in derivative self-test agrees with the derivatives (it holds for every composition of the toolbox terms)
SCENARIO(selftest)
{
    Rng& r = c.rng;
    static const int N = 3, M = 2;
    CostModel<N, M> m;
    auto k = randomCostFunction<N, M>(r, m, 3, 1);
    if (m.in.empty()) { m.in.push_back(randomCost<N, M>(r)); k->addIntermediateTerm(m.in.back().make()); }
    double sh = r.coin() ? r.uni(-1, 1) : 0.0;
    k->shiftTime(sh);
    StateVector<N> x = r.mat<N, 1>(-3, 3);
    ControlVector<M> u = r.mat<M, 1>(-3, 3);
    double t = m.time(r, sh);
    c.cfg = m.names() + " shift " + str(sh);
    k->setCurrentStateAndControl(x, u, t);
    auto gx = k->stateDerivativeIntermediate(); auto gu = k->controlDerivativeIntermediate();
    double v0 = k->evaluateIntermediate(), scale = std::abs(v0);
    bool a = k->stateDerivativeIntermediateTest(), b = k->controlDerivativeIntermediateTest();
    // the self-test compares relative to the gradient norm with 1e-6; central differences with sqrt(eps) steps resolve about 1e-8*|cost|
    if (gx.norm() > 0.1 * (1 + scale)) c.check("state-selftest", a, "self-test rejects a correct state gradient");
    if (gu.norm() > 0.1 * (1 + scale)) c.check("control-selftest", b, "self-test rejects a correct control gradient");
    Eigen::Matrix<double, N, 1> xc; Eigen::Matrix<double, M, 1> uc; double tc;
    k->getCurrentStateAndControl(xc, uc, tc);
    c.check("point-kept", xc == x && uc == u, "the self-test moved the evaluation point");
    c.near("time-kept", tc, t + sh, 1e-14);
    c.check("value-kept", k->evaluateIntermediate() == v0, "the self-test changed the reported cost");
    c.nontrivial = true;
}

// ---- C08 ----
template <int N, int M>
static void checkValue(Case& c, const std::string& tag, CostFunctionQuadratic<N, M>& k, const CostModel<N, M>& m, const StateVector<N>& x, const ControlVector<M>& u, double teff)
{
    c.near(tag + "intermediate", k.evaluateIntermediate(), m.inter(x, u, teff), 1e-9);
    c.near(tag + "terminal", k.evaluateTerminal(), m.term(x, u, teff), 1e-9);
}
template <int N, int M>
static void history(Case& c)
{
    Rng& r = c.rng;
    CostModel<N, M> m0;
    struct Obj { std::shared_ptr<CostFunctionAnalytical<N, M>> k; CostModel<N, M> m; double sh; StateVector<N> x; ControlVector<M> u; double te; bool set; };
    std::vector<Obj> objs;
    objs.reserve(4);
    {
        Obj o;
        o.k = randomCostFunction<N, M>(r, o.m, 4, 3, false);
        o.sh = 0; o.x.setZero(); o.u.setZero(); o.te = 0; o.set = true;
        objs.push_back(o);
    }
    std::string hist;
    int nops = r.in(4, 14);
    for (int i = 0; i < nops; ++i)
    {
        int w = r.in(0, (int)objs.size() - 1);
        Obj& o = objs[w];
        int op = r.in(0, 9);
        hist += " " + std::to_string(w) + ":" + std::to_string(op);
        c.sig.i(op);
        switch (op)
        {
            case 0: case 1: case 2:
            {
                double t = o.m.time(r, o.sh);
                int keep = r.in(0, 3);
                if (!(keep & 1)) o.x = r.mat<N, 1>(-3, 3);
                if (!(keep & 2)) o.u = r.mat<M, 1>(-3, 3);
                o.te = t + o.sh; o.set = true;
                o.k->setCurrentStateAndControl(o.x, o.u, t);
                break;
            }
            case 3: { StateVector<N> v = r.mat<N, 1>(-2, 2); o.k->updateReferenceState(v); for (auto& t : o.m.in) if (t.hasStateRef()) t.xr = v; break; }
            case 4: { ControlVector<M> v = r.mat<M, 1>(-2, 2); o.k->updateReferenceControl(v); for (auto& t : o.m.in) if (t.hasControlRef()) t.ur = v; break; }
            case 5: { StateVector<N> v = r.mat<N, 1>(-2, 2); o.k->updateFinalState(v); for (auto& t : o.m.fi) if (t.hasStateRef()) t.xr = v; break; }
            case 6:
            {
                auto t = randomCost<N, M>(r, false);
                bool f = r.coin();
                auto& l = f ? o.m.fi : o.m.in;
                size_t id = f ? o.k->addFinalTerm(t.make()) : o.k->addIntermediateTerm(t.make());
                c.check("term-id", id == l.size(), "id of the added term");
                l.push_back(t);
                if (o.set && o.m.edge(o.te)) o.set = false;
                break;
            }
            case 7: if (objs.size() < 3) { Obj n = o; n.k.reset(o.k->clone()); objs.push_back(n); } break;
            case 8: { double s = r.coin() ? 0.0 : r.uni(-1, 1); o.k->shiftTime(s); o.sh = s; break; }  // applies from the next setCurrentStateAndControl
            default:
            {
                // update one quadratic term through its handle
                bool f = r.coin();
                auto& l = f ? o.m.fi : o.m.in;
                if (l.empty()) break;
                int j = r.in(0, (int)l.size() - 1);
                auto h = r.coin() ? (f ? o.k->getFinalTermById(j) : o.k->getIntermediateTermById(j)) : nullptr;
                if (!h)
                {
                    // by name: the first of that name
                    for (j = 0; l[j].name != l.back().name; ++j) {}
                    h = f ? o.k->getFinalTermByName(l[j].name) : o.k->getIntermediateTermByName(l[j].name);
                }
                c.check("term-name", h->getName() == l[j].name, "name of the term");
                if (auto q = std::dynamic_pointer_cast<TermQuadratic<N, M>>(h))
                {
                    l[j].Q = r.mat<N, N>(); l[j].R = r.mat<M, M>();
                    if (r.coin()) q->setWeights(l[j].Q, l[j].R); else { q->getStateWeight() = l[j].Q; q->getControlWeight() = l[j].R; }
                    if (r.coin()) { l[j].xr = r.mat<N, 1>(); l[j].ur = r.mat<M, 1>(); q->setStateAndControlReference(StateVector<N>(l[j].xr), ControlVector<M>(l[j].ur)); }
                    c.nearm("reference-state", q->getReferenceState(), l[j].xr, 0);
                }
                else if (auto q = std::dynamic_pointer_cast<TermMixed<N, M>>(h)) { l[j].P = r.mat<M, N>(); q->setWeights(l[j].P); }
                else if (auto q = std::dynamic_pointer_cast<TermQuadMult<N, M>>(h)) { l[j].Q = r.mat<N, N>(); l[j].R = r.mat<M, M>(); q->setWeights(l[j].Q, l[j].R); }
                else if (auto q = std::dynamic_pointer_cast<TermQuadTracking<N, M>>(h)) { l[j].Q = r.mat<N, N>(); l[j].R = r.mat<M, M>(); q->setWeights(l[j].Q, l[j].R);
                    if (r.coin())
                    {
                        // a new reference, on a new grid
                        auto f2 = randomCost<N, M>(r, false);
                        l[j].tt = f2.tt; l[j].xt = f2.xt; l[j].ut = f2.ut;
                        InterpolationType it = l[j].zoh ? ZOH : LIN;
                        StateTrajectory<N> xs(it); ControlTrajectory<M> us(it);
                        for (size_t i = 0; i < f2.tt.size(); ++i) { xs.push_back(StateVector<N>(f2.xt[i]), f2.tt[i], true); us.push_back(ControlVector<M>(f2.ut[i]), f2.tt[i], true); }
                        q->setStateAndControlReference(xs, us);
                        if (o.set && o.m.edge(o.te)) o.set = false;
                    }
                }
                if (r.coin(0.3)) { l[j].act = randomAct(r); if (l[j].act.obj) h->setTimeActivation(l[j].act.obj); else h->setTimeActivation(std::make_shared<ActivationBase>()); if (o.set && o.m.edge(o.te)) o.set = false; }
            }
        }
        c.cfg = "hist" + hist + " | " + o.m.names();
        // every object, not only the one that was changed, keeps reporting its own cost
        for (auto& p : objs)
            if (p.set) checkValue<N, M>(c, "", *p.k, p.m, p.x, p.u, p.te);
    }
    if (c.checks == 0) throw Skip();
    c.nontrivial = true;
}
SCENARIO_W(history_3_2, 3) { history<3, 2>(c); }
SCENARIO(history_1_1) { history<1, 1>(c); }
SCENARIO(history_2_4) { history<2, 4>(c); }

// derivatives reported by a composition are the activation-weighted sums of the term formulas (compared with exact differencing of the model)
SCENARIO_W(value_derivs, 2)
{
    Rng& r = c.rng;
    static const int N = 3, M = 2;
    CostModel<N, M> m;
    auto k = randomCostFunction<N, M>(r, m, 4, 2);
    StateVector<N> x = r.mat<N, 1>(-3, 3);
    ControlVector<M> u = r.mat<M, 1>(-3, 3);
    double t = m.time(r);
    c.cfg = m.names();
    k->setCurrentStateAndControl(x, u, t);
    checkValue<N, M>(c, "", *k, m, x, u, t);
    Eigen::Matrix<double, N, 1> g, gt; Eigen::Matrix<double, M, 1> gu;
    for (int i = 0; i < N; ++i)
    {
        auto f = [&](bool fin) { return d5([&, fin](double e) { Eigen::Matrix<double, N, 1> y = x; y(i) += e; return Eigen::VectorXd::Constant(1, fin ? m.term(y, u, t) : m.inter(y, u, t)); }, 1e-3)(0); };
        g(i) = f(false); gt(i) = f(true);
    }
    for (int i = 0; i < M; ++i) gu(i) = d5([&](double e) { Eigen::Matrix<double, M, 1> v = u; v(i) += e; return Eigen::VectorXd::Constant(1, m.inter(x, v, t)); }, 1e-3)(0);
    c.nearm("state-gradient", k->stateDerivativeIntermediate(), g, 3e-7);
    c.nearm("terminal-state-gradient", k->stateDerivativeTerminal(), gt, 3e-7);
    c.nearm("control-gradient", k->controlDerivativeIntermediate(), gu, 3e-7);
}

template <int N, int M>
static void file(Case& c)
{
    Rng& r = c.rng;
    CostModel<N, M> m;
    std::string text;
    int n = r.in(1, 5);
    for (int i = 0; i < n; ++i)
    {
        auto t = randomCost<N, M>(r, true, true);
        t.c = 0;  // files carry no constant
        int ty = r.coin(0.4);
        text += t.node(i, ty, r);
        (ty ? m.fi : m.in).push_back(t);
    }
    c.cfg = m.names();
    std::string fn = writefile("cost", text);
    std::shared_ptr<CostFunctionAnalytical<N, M>> k;
    if (r.coin()) k.reset(new CostFunctionAnalytical<N, M>(fn, r.coin(0.2)));
    else
    {
        // loading replaces whatever the cost function held before
        CostModel<N, M> old;
        k = randomCostFunction<N, M>(r, old, 2, 2);
        k->loadFromConfigFile(fn, r.coin(0.2));
    }
    if (r.coin()) { auto cp = k; k.reset(cp->clone()); }
    for (int q = 0; q < 3; ++q)
    {
        StateVector<N> x = r.mat<N, 1>(-3, 3);
        ControlVector<M> u = r.mat<M, 1>(-3, 3);
        double t = m.time(r);
        k->setCurrentStateAndControl(x, u, t);
        checkValue<N, M>(c, "file-", *k, m, x, u, t);
    }
    for (size_t i = 0; i < m.in.size(); ++i) c.check("file-name", k->getIntermediateTermById(i)->getName() == m.in[i].name, "name of intermediate term " + std::to_string(i) + ": " + k->getIntermediateTermById(i)->getName() + " want " + m.in[i].name);
    for (size_t i = 0; i < m.fi.size(); ++i) c.check("file-name-final", k->getFinalTermById(i)->getName() == m.fi[i].name, "name of final term");
    unlink(fn.c_str());
    // unknown kinds, types and missing parts are refused
    std::string bad;
    int w = r.in(0, 2);
    TermModel<N, M> t = randomCost<N, M>(r, true, true);
    bad = t.node(0, w == 0 ? 2 : 0, r);
    if (w == 1) { size_t p = bad.find("kind"); bad.replace(p, bad.find('\n', p) - p, "kind \"cubic\""); }
    if (w == 2) { size_t p = bad.find("term0"); bad.replace(p, 5, "term1"); }
    std::string fb = writefile("badcost", bad);
    bool threw = false;
    try { CostFunctionAnalytical<N, M> z(fb, false); } catch (std::exception&) { threw = true; }
    c.check("file-refused", threw, "malformed cost file (variant " + std::to_string(w) + ") accepted");
    unlink(fb.c_str());
}
SCENARIO_W(file_3_2, 2) { file<3, 2>(c); }
SCENARIO(file_1_1) { file<1, 1>(c); }

// a term loaded on its own, with an unknown activation kind refused or ignored without side effects
SCENARIO(file_term)
{
    Rng& r = c.rng;
    static const int N = 3, M = 2;
    TermModel<N, M> t = randomCost<N, M>(r, true, true);
    t.kind = T_QUAD;
    std::string fn = writefile("term", t.node(3, 0, r));
    TermQuadratic<N, M> q(fn, "term3", false);
    std::shared_ptr<TermQuadratic<N, M>> d(new TermQuadratic<N, M>());
    d->loadConfigFile(fn, "term3");
    d->loadTimeActivation(fn, "term3");
    Eigen::Matrix<double, N, 1> x = r.mat<N, 1>(-3, 3); Eigen::Matrix<double, M, 1> u = r.mat<M, 1>(-3, 3);
    double s = r.uni(-1, 3);
    while (t.edge(s)) s = r.uni(-1, 3);
    c.near("term-value", q.evaluate(x, u, s), t.raw(x, u, s), 1e-10);
    c.near("term-value-load", d->evaluate(x, u, s), t.raw(x, u, s), 1e-10);
    if (d->isActiveAtTime(s)) c.near("term-activation", d->eval(x, u, s), t.act.w(s) * t.raw(x, u, s), 1e-9);
    else c.check("term-inactive", t.act.w(s) == 0, "inactive");
    unlink(fn.c_str());
    std::string bad = "term3\n{\ntime_activation\n{\nkind nonsense\n}\n}\n";
    std::string fb = writefile("term", bad);
    auto keep = d->isActiveAtTime(s);
    try { d->loadTimeActivation(fb, "term3"); } catch (std::exception&) {}
    c.check("activation-kept", d->isActiveAtTime(s) == keep, "an unknown activation kind changed the term");
    unlink(fb.c_str());
}

// terms which the cost function files do not know, loaded one by one
SCENARIO(file_other)
{
    Rng& r = c.rng;
    static const int N = 3, M = 2;
    TermModel<N, M> a = randomCost<N, M>(r, true, false), b = a;
    a.kind = b.kind = r.coin() ? T_TRACK : T_BAR;
    a.act = ActModel(); b.act = a.act;
    b.Q = r.dmat(N, N, -2, 2); b.R = r.dmat(M, M, -2, 2); b.ub = r.dvec(N, 0, 1); b.lb = r.dvec(N, -1, 0); b.al = r.dvec(N, 0.2, 1.5);
    std::string fn = writefile("term", b.node(5, 0, r));
    auto t = a.make();
    c.cfg = termKindName[a.kind];
    t->loadConfigFile(fn, "term5");
    unlink(fn.c_str());
    for (int i = 0; i < 3; ++i)
    {
        StateVector<N> x = r.mat<N, 1>(-2, 2); ControlVector<M> u = r.mat<M, 1>(-2, 2);
        double s = r.uni(-1, 3);
        if (a.edge(s)) continue;
        c.near("term-value-loaded", t->evaluate(x, u, s), b.raw(x, u, s), 1e-10);
    }
}

template <int N, int M>
void simpleOps(mon::Case& c)
{
    Rng& r = c.rng;
    SimpleModel<N, M> m(r);
    std::shared_ptr<CostFunctionQuadraticSimple<N, M>> k = m.make();
    Eigen::Matrix<double, N, 1> x; Eigen::Matrix<double, M, 1> u; x.setZero(); u.setZero();
    int nops = r.in(2, 9);
    for (int i = 0; i < nops; ++i)
    {
        int op = r.in(0, 5);
        c.sig.i(op);
        c.cfg += " " + std::to_string(op);
        switch (op)
        {
            case 0: x = r.mat<N, 1>(-3, 3); u = r.mat<M, 1>(-3, 3); k->setCurrentStateAndControl(StateVector<N>(x), ControlVector<M>(u), r.uni(-1, 3)); break;
            case 1: m.xn = r.mat<N, 1>(); k->updateReferenceState(StateVector<N>(m.xn)); break;
            case 2: m.xf = r.mat<N, 1>(); k->updateFinalState(StateVector<N>(m.xf)); break;
            case 3: m.un = r.mat<M, 1>(); k->updateReferenceControl(ControlVector<M>(m.un)); break;
            case 4: { auto old = k; k.reset(old->clone()); old->updateReferenceState(StateVector<N>(r.mat<N, 1>())); break; }
            default: break;
        }
        c.near("simple-intermediate", k->evaluateIntermediate(), m.v(x, u), 1e-10);
        c.near("simple-terminal", k->evaluateTerminal(), m.f(x), 1e-10);
        c.nearm("simple-gradient", k->stateDerivativeIntermediate(), m.Q * (x - m.xn), 1e-10);
        c.nearm("simple-control-gradient", k->controlDerivativeIntermediate(), m.R * (u - m.un), 1e-10);
    }
}
SCENARIO_W(simple, 2)
{
    switch (c.rng.in(0, 2))
    {
        case 0: c.cfg += "1x1"; simpleOps<1, 1>(c); break;
        case 1: c.cfg += "1x2"; simpleOps<1, 2>(c); break;
        default: c.cfg += "3x2"; simpleOps<3, 2>(c);
    }
}
MON_MAIN
