// C10: switched systems and constraints dispatch to the phase active at the queried time.
#include "cons.hpp"
using namespace mon;
using namespace ct::core;
using namespace ct::optcon;

template <class T>
struct Model
{
    T start;
    std::vector<size_t> ph;
    std::vector<T> begin, end;
    size_t idx(T t) const
    {
        if (t < start) return 0;
        for (size_t i = 0; i < ph.size(); ++i)
            if (t >= begin[i] && t < end[i]) return i;
        return ph.size() - 1;
    }
};
template <class T>
static T dur(Rng& r);
template <> double dur<double>(Rng& r) { return r.coin(0.15) ? 0.0 : r.coin(0.4) ? 0.25 * r.in(1, 6) : r.uni(0.05, 2.0); }
template <> int dur<int>(Rng& r) { return r.coin(0.15) ? 0 : r.in(1, 7); }
template <class T>
static T st(Rng& r);
template <> double st<double>(Rng& r) { return r.coin() ? 0.0 : r.uni(-3, 3); }
template <> int st<int>(Rng& r) { return r.coin() ? 0 : r.in(-4, 4); }
template <class T>
static PhaseSequence<size_t, T> make(Case& c, Model<T>& m, int modes, int minPh = 1)
{
    m.start = st<T>(c.rng);
    PhaseSequence<size_t, T> s(m.start);
    int n = c.rng.in(minPh, 6);
    T t = m.start;
    for (int i = 0; i < n; ++i)
    {
        size_t p = c.rng.in(0, modes - 1);
        T d = dur<T>(c.rng);
        s.addPhase(p, d);
        m.ph.push_back(p); m.begin.push_back(t); t = t + d; m.end.push_back(t);
    }
    // the last phase with a non-zero duration decides past the end only via the final entry
    c.cfg = "phases " + str(n) + " start " + str(m.start);
    for (int i = 0; i < n; ++i) c.cfg += " " + str(m.ph[i]) + "@" + str(m.begin[i]);
    return s;
}
template <class T>
static T query(Rng& r, const Model<T>& m);
template <> double query<double>(Rng& r, const Model<double>& m)
{
    int k = r.in(0, 4);
    if (k == 0) return m.begin[r.in(0, m.ph.size() - 1)];
    if (k == 1) return m.end[r.in(0, m.ph.size() - 1)];
    if (k == 2) { double b = m.end[r.in(0, m.ph.size() - 1)]; return r.coin() ? std::nextafter(b, -1e9) : std::nextafter(b, 1e9); }
    return r.uni(m.start - 1, m.end.back() + 1);
}
template <> int query<int>(Rng& r, const Model<int>& m) { return r.in(m.start - 2, m.end.back() + 2); }

template <class T>
static void seq(Case& c)
{
    Model<T> m;
    auto s0 = make<T>(c, m, 5);
    auto s1 = s0;
    PhaseSequence<size_t, T> s2(17);
    s2 = s0;
    auto& s = c.rng.coin() ? s1 : s2;
    size_t n = m.ph.size();
    c.check("num", s.getNumPhases() == n && s.getNumSwitches() == n - 1);
    c.near("total", s.getTotalDuration(), m.end.back() - m.start, 0);
    c.check("first-last", s.getFirstPhase() == m.ph.front() && s.getFinalPhase() == m.ph.back());
    for (size_t i = 0; i < n; ++i)
    {
        c.near("start", s.getStartTimeFromIdx(i), m.begin[i], 0);
        c.near("end", s.getEndTimeFromIdx(i), m.end[i], 0);
        c.check("phase", s.getPhaseFromIdx(i) == m.ph[i]);
        if (i + 1 < n)
        {
            auto e = s.getSwitchEventFromIdx(i);
            c.check("switch", e.pre_phase == m.ph[i] && e.post_phase == m.ph[i + 1] && e.switch_time == m.end[i]);
        }
    }
    for (int q = 0; q < 12; ++q)
    {
        T t = query<T>(c.rng, m);
        size_t w = m.idx(t);
        c.check("idx", s.getIdxFromTime(t) == w, "t=" + str(t) + " got " + str(s.getIdxFromTime(t)) + " want " + str(w));
        c.check("phase-time", s.getPhaseFromTime(t) == m.ph[w]);
        if (w + 1 < n)
        {
            auto e = s.getSwitchEventFromTime(t);
            c.check("switch-time", e.pre_phase == m.ph[w] && e.post_phase == m.ph[w + 1] && e.switch_time == m.end[w]);
        }
        c.sig.i(w);
    }
    // appending a phase later keeps everything before it
    T tq = query<T>(c.rng, m);
    if (tq < m.end.back()) { size_t b = s.getIdxFromTime(tq); s.addPhase(3, dur<T>(c.rng)); c.check("append", s.getIdxFromTime(tq) == b); }
}
SCENARIO(seq_cont) { seq<double>(c); }
SCENARIO(seq_disc) { seq<int>(c); }

static const int N = 3, M = 2;
typedef Dyn<N, M> D;
SCENARIO_W(continuous, 2)
{
    Model<double> m;
    auto s = make<double>(c, m, 3);
    std::vector<D> ds;
    Switched<std::shared_ptr<ControlledSystem<N, M>>> sys;
    Switched<std::shared_ptr<LinearSystem<N, M>>> lin;
    for (int i = 0; i < 3; ++i)
    {
        ds.push_back(D::random(c.rng));
        sys.push_back(std::make_shared<DynSys<N, M>>(ds[i]));
        lin.push_back(std::make_shared<DynLin<N, M>>(ds[i]));
    }
    ControlVector<M> u0 = c.rng.mat<M, 1>();
    auto ctr = std::make_shared<ConstantController<N, M>>(u0);
    SwitchedControlledSystem<N, M> S0(sys, s), S1(sys, s, ctr, SECOND_ORDER);
    SwitchedLinearSystem<N, M> L0(lin, s);
    std::shared_ptr<ControlledSystem<N, M>> cs(S1.clone());
    std::shared_ptr<LinearSystem<N, M>> cl(L0.clone());
    bool cloned = c.rng.coin();
    ControlledSystem<N, M>& S = cloned ? *cs : (c.rng.coin() ? (ControlledSystem<N, M>&)S0 : S1);
    LinearSystem<N, M>& L = cloned ? *cl : L0;
    c.check("type", S1.getType() == SECOND_ORDER && cs->getType() == SECOND_ORDER);
    StateVector<N> x, dx;
    ControlVector<M> u;
    for (int q = 0; q < 8; ++q)
    {
        double t = query<double>(c.rng, m);
        const D& d = ds[m.ph[m.idx(t)]];
        if (!q || c.rng.coin(0.6)) x = c.rng.mat<N, 1>(-2, 2);
        if (!q || c.rng.coin(0.6)) u = c.rng.mat<M, 1>(-2, 2);
        S.computeControlledDynamics(x, t, u, dx);
        c.nearm("dyn", dx, d.fd(x, u, t), 1e-12);
        cs->computeDynamics(x, t, dx);
        c.nearm("closed-loop", dx, d.fd(x, u0, t), 1e-12);
        if (c.rng.coin())
        {
            c.nearm("A", L.getDerivativeState(x, u, t), d.fx(x, u, t), 1e-12);
            c.nearm("B", L.getDerivativeControl(x, u, t), d.fu(x, u, t), 1e-12);
        }
        else
        {
            StateMatrix<N> A; StateControlMatrix<N, M> B;
            L.getDerivatives(A, B, x, u, t);
            c.nearm("A", A, d.fx(x, u, t), 1e-12);
            c.nearm("B", B, d.fu(x, u, t), 1e-12);
        }
        L.computeControlledDynamics(x, t, u, dx);
        c.nearm("lin", dx, d.fx(x, u, t) * x + d.fu(x, u, t) * u, 1e-11);
    }
}
struct DSys : public DiscreteControlledSystem<N, M>
{
    D d;
    DSys(const D& dd) : d(dd) {}
    DSys* clone() const override { return new DSys(*this); }
    void propagateControlledDynamics(const StateVector<N>& x, const int n, const ControlVector<M>& u, StateVector<N>& xn) override { xn = d.fd(x, u, 0.1 * n); }
};
struct DLin : public DiscreteLinearSystem<N, M>
{
    D d;
    DLin(const D& dd) : d(dd) {}
    DLin* clone() const override { return new DLin(*this); }
    void getAandB(const StateVector<N>& x, const ControlVector<M>& u, const StateVector<N>& xn, const int n, size_t sub, StateMatrix<N>& A, StateControlMatrix<N, M>& B) override
    {
        // depends on every argument so that a dropped or swapped one is visible
        A = d.fx(x, u, 0.1 * n) + 0.01 * double(sub) * d.fx(xn, u, 0.2 * n);
        B = d.fu(x, u, 0.1 * n) + 0.01 * double(sub) * d.fu(xn, u, 0.2 * n);
    }
};
SCENARIO_W(discrete, 2)
{
    Model<int> m;
    auto s = make<int>(c, m, 3);
    std::vector<D> ds;
    Switched<std::shared_ptr<DiscreteControlledSystem<N, M>>> sys;
    Switched<std::shared_ptr<DiscreteLinearSystem<N, M>>> lin;
    for (int i = 0; i < 3; ++i)
    {
        ds.push_back(D::random(c.rng));
        sys.push_back(std::make_shared<DSys>(ds[i]));
        lin.push_back(std::make_shared<DLin>(ds[i]));
    }
    SwitchedDiscreteControlledSystem<N, M> S0(sys, s);
    SwitchedDiscreteLinearSystem<N, M> L0(lin, s);
    std::shared_ptr<DiscreteControlledSystem<N, M>> cs(S0.clone());
    std::shared_ptr<DiscreteLinearSystem<N, M>> cl(L0.clone());
    bool cloned = c.rng.coin();
    DiscreteControlledSystem<N, M>& S = cloned ? *cs : S0;
    DiscreteLinearSystem<N, M>& L = cloned ? *cl : L0;
    StateVector<N> x, xn, o;
    ControlVector<M> u;
    for (int q = 0; q < 8; ++q)
    {
        int n = query<int>(c.rng, m);
        const D& d = ds[m.ph[m.idx(n)]];
        if (!q || c.rng.coin(0.6)) x = c.rng.mat<N, 1>(-2, 2);
        if (!q || c.rng.coin(0.6)) xn = c.rng.mat<N, 1>(-2, 2);
        if (!q || c.rng.coin(0.6)) u = c.rng.mat<M, 1>(-2, 2);
        S.propagateControlledDynamics(x, n, u, o);
        c.nearm("dyn", o, d.fd(x, u, 0.1 * n), 1e-12);
        int sub = c.rng.in(1, 4);
        StateMatrix<N> A, wa; StateControlMatrix<N, M> B, wb;
        L.getAandB(x, u, xn, n, sub, A, B);
        DLin ref(d);
        ref.getAandB(x, u, xn, n, sub, wa, wb);
        c.nearm("A", A, wa, 1e-12);
        c.nearm("B", B, wb, 1e-12);
        L.propagateControlledDynamics(x, n, u, o);
        StateVector<N> w;
        ref.propagateControlledDynamics(x, n, u, w);
        c.nearm("lin", o, w, 1e-11);
    }
}
SCENARIO_W(constraints, 2)
{
    Model<double> m;
    auto s = make<double>(c, m, 3);
    std::vector<ConStack<N, M>> in(3), te(3);
    Switched<std::shared_ptr<LinearConstraintContainer<N, M>>> ks;
    for (int i = 0; i < 3; ++i) ks.push_back(randomContainer<N, M>(c.rng, in[i], te[i], 3, 2));
    SwitchedLinearConstraintContainer<N, M> k0(ks, s);
    k0.initialize();
    c.check("init", k0.isInitialized());
    StateVector<N> x = c.rng.mat<N, 1>(-2, 2);
    ControlVector<M> u = c.rng.mat<M, 1>(-2, 2);
    double t;
    int fin = m.ph.back();
    std::shared_ptr<SwitchedLinearConstraintContainer<N, M>> cl;
    bool fresh = c.rng.coin();
    if (fresh) cl.reset(k0.clone());
    for (int q = 0; q < 6; ++q)
    {
        t = query<double>(c.rng, m);
        if (!q || c.rng.coin(0.6)) x = c.rng.mat<N, 1>(-2, 2);
        if (!q || c.rng.coin(0.6)) u = c.rng.mat<M, 1>(-2, 2);
        auto& k = cl && c.rng.coin() ? *cl : k0;
        k.setCurrentStateAndControl(x, u, t);
        int p = m.ph[m.idx(t)];
        checkContainer<N, M>(c, "", k, in[p], te[fin], x, u, t);
        c.sig.i(p);
        if (c.rng.coin(0.3))
        {
            // a copy answers like its original without a new query point
            std::shared_ptr<SwitchedLinearConstraintContainer<N, M>> n(k.clone());
            checkContainer<N, M>(c, "copy-", *n, in[p], te[fin], x, u, t);
            cl = n;
        }
    }
    c.nontrivial = true;
}
MON_MAIN
