// C01: the multi-threaded NLOC backend computes the same iterates as the single-threaded one, without data races, for every schedule,
// and every call returns. Delays are injected into the user callbacks; the watchdog of check.py reports cases that do not finish.
#include "nloc.hpp"
using namespace mon;
using namespace nl;
static const int N = 3, M = 2;
typedef Eigen::Matrix<double, N, 1> X;
typedef Traj<N, M> T;

struct Pair
{
    Model<N, M> m;
    CostM<N, M> c;
    NLOptConSettings s;
    int K, nt;
    X x0;
    Watch w;
    std::shared_ptr<Solver<N, M>> st, mp;
    std::shared_ptr<Solver<N, M>> make(int threads, Watch* ww)
    {
        NLOptConSettings q = s;
        q.nThreads = threads;
        auto sys = mkSys<N, M>(m, s.dt, ww);
        auto lin = std::make_shared<Lin<N, M>>(m, s.dt, ww);
        auto cost = std::make_shared<Cost<N, M>>(c, ww);
#ifdef DISC
        Problem<N, M> p(K, x0, sys, cost, lin);
#else
        Problem<N, M> p(K * s.dt, x0, sys, cost, lin);
#endif
        return std::make_shared<Solver<N, M>>(p, q);
    }
};
static NLOptConSettings rset(Rng& r)
{
    NLOptConSettings s = nl::settings(r, 1);
    // step sizes that both backends compute without rounding
    s.lineSearchSettings.n_alpha = r.coin(0.8) ? 0.5 : 0.25;
    s.lineSearchSettings.alpha_0 = r.coin(0.6) ? 1.0 : (r.coin() ? 2.0 : 8.0);
    if (r.coin(0.2)) s.lineSearchSettings.maxIterations = 1;
    return s;
}
static void compare(Case& c, const char* tag, Pair& p)
{
    std::string g(tag);
    T a = solution<N, M>(*p.st), b = solution<N, M>(*p.mp);
    if (!c.check(g + "_sizes", a.x.size() == b.x.size() && a.u.size() == b.u.size())) return;
    for (auto& v : a.x) if (!v.allFinite()) throw Skip();  // diverged
    auto same = [](double v, double w) { return v == w || (std::isnan(v) && std::isnan(w)); };
    int bad = -1;
    std::string what;
    for (size_t k = 0; k < a.x.size() && bad < 0; ++k)
        for (int i = 0; i < N; ++i)
            if (!same(a.x[k](i), b.x[k](i))) { bad = k; what = "x " + full(a.x[k](i)) + " vs " + full(b.x[k](i)); }
    for (size_t k = 0; k < a.u.size() && bad < 0; ++k)
        for (int i = 0; i < M; ++i)
        {
            if (!same(a.u[k](i), b.u[k](i))) { bad = k; what = "u " + full(a.u[k](i)) + " vs " + full(b.u[k](i)); }
            for (int j = 0; j < N; ++j)
                if (!same(a.L[k](i, j), b.L[k](i, j))) { bad = k; what = "L"; }
        }
    c.check(g + "_same_solution", bad < 0, "stage " + str(bad) + " " + what);
    c.check(g + "_same_cost", same(p.st->getCost(), p.mp->getCost()), full(p.st->getCost()) + " vs " + full(p.mp->getCost()));
    c.check(g + "_same_defect", same(p.st->getBackend()->getTotalDefect(), p.mp->getBackend()->getTotalDefect()));
    auto &sa = p.st->getBackend()->getSummary(), &sb = p.mp->getBackend()->getSummary();
    if (!c.check(g + "_same_summary_size", sa.merits.size() == sb.merits.size() && sa.stepSizes.size() == sb.stepSizes.size())) return;
    auto cmp = [&](const char* n, const std::vector<double>& u, const std::vector<double>& v) {
        bool ok = u.size() == v.size();
        for (size_t i = 0; ok && i < u.size(); ++i) ok = same(u[i], v[i]);
        c.check(g + "_same_" + n, ok, u.size() && v.size() ? full(u.back()) + " vs " + full(v.back()) : "");
    };
    cmp("merits", sa.merits, sb.merits);
    cmp("steps", sa.stepSizes, sb.stepSizes);
    cmp("defects", sa.defect_l1_norms, sb.defect_l1_norms);
    cmp("costs", sa.totalCosts, sb.totalCosts);
    cmp("lx", sa.lx_norms, sb.lx_norms);
    cmp("smallest_eig", sa.smallestEigenvalues, sb.smallestEigenvalues);
    c.nontrivial = true;
    c.sig.d(p.st->getCost());
    c.sig.i((long)p.w.order.load());  // the interleaving of the callbacks that was observed
}
// run the same call on both; both must agree on the outcome, including an exception
template <class F>
static void both(Case& c, const char* tag, Pair& p, F f)
{
    int ra = -1, rb = -1;
    try { ra = f(*p.st); } catch (std::runtime_error&) { ra = 99; }
    try { rb = f(*p.mp); } catch (std::runtime_error&) { rb = 99; }
    c.check(std::string(tag) + "_same_return", ra == rb, str(ra) + " vs " + str(rb));
    if (ra == 99) throw Skip();
}

SCENARIO_W(history, 5)
{
    Rng& r = c.rng;
    Pair p;
    p.m = Model<N, M>::random(r, r.in(0, 3));
    p.c = CostM<N, M>::random(r, r.coin());
    p.s = rset(r);
    p.nt = r.in(2, 6);
    p.K = r.coin(0.2) ? r.in(1, 3) : r.in(3, 24);
    p.x0 = r.uni(0.3, 2) * r.mat<N, 1>(-1, 1);
#ifndef DISC
    if (r.coin(0.4))
    {
        p.s.integrator = ct::core::IntegrationType::RK4;
        p.s.K_sim = r.in(1, 3);
        p.s.useSensitivityIntegrator = r.coin();
    }
#endif
    p.w.delays = r.coin(0.7);
    c.cfg = show(p.s, p.K) + " nt=" + str(p.nt);
    p.st = p.make(1, nullptr);
    p.mp = p.make(p.nt, &p.w);
    auto g = guess<N, M>(randomGuess<N, M>(r, p.x0, p.K, 0.8), p.s.dt);
    p.st->setInitialGuess(g);
    p.mp->setInitialGuess(g);
    int n = r.in(2, 7);
    for (int i = 0; i < n; ++i)
    {
        int op = r.in(0, 9);
        c.cfg += " op" + str(op);
        if (op == 0)
        {
            p.x0 = r.mat<N, 1>(-1, 1);
            p.st->changeInitialState(p.x0);
            p.mp->changeInitialState(p.x0);
        }
        else if (op == 1)
        {
            p.K = r.in(1, 24);
            for (auto s : {p.st, p.mp})
#ifdef DISC
                s->getBackend()->changeTimeHorizon(p.K);
#else
                s->changeTimeHorizon(p.K * p.s.dt);
#endif
            auto gg = guess<N, M>(randomGuess<N, M>(r, p.x0, p.K, 0.8), p.s.dt);
            p.st->setInitialGuess(gg);
            p.mp->setInitialGuess(gg);
        }
        else if (op == 2)
        {
            p.c = CostM<N, M>::random(r, r.coin());
            p.st->changeCostFunction(std::make_shared<Cost<N, M>>(p.c));
            p.mp->changeCostFunction(std::make_shared<Cost<N, M>>(p.c, &p.w));
        }
        else if (op == 3)
        {
            p.m = Model<N, M>::random(r, r.in(0, 2));
            p.st->changeNonlinearSystem(mkSys<N, M>(p.m, p.s.dt, nullptr));
            p.st->changeLinearSystem(std::make_shared<Lin<N, M>>(p.m, p.s.dt));
            p.mp->changeNonlinearSystem(mkSys<N, M>(p.m, p.s.dt, &p.w));
            p.mp->changeLinearSystem(std::make_shared<Lin<N, M>>(p.m, p.s.dt, &p.w));
        }
        else if (op == 4)
        {
            NLOptConSettings q = rset(r);
            q.integrator = p.s.integrator; q.K_sim = p.s.K_sim; q.useSensitivityIntegrator = p.s.useSensitivityIntegrator;
#ifdef DISC
            q.dt = p.s.dt;
#endif
            p.s = q;
            p.st->configure(q);
            q.nThreads = p.nt;
            p.mp->configure(q);
            c.cfg += "(" + show(p.s, p.K) + ")";
        }
        else if (op == 5)
        {
            auto gg = guess<N, M>(randomGuess<N, M>(r, p.x0, p.K, 0.8), p.s.dt);
            p.st->setInitialGuess(gg);
            p.mp->setInitialGuess(gg);
        }
        int its = r.in(1, 4), mode = r.in(0, 3);
        for (int k = 0; k < its; ++k)
        {
            if (mode < 2) both(c, "run", p, [](Solver<N, M>& s) { return (int)s.runIteration(); });
            else if (mode == 2) both(c, "split", p, [](Solver<N, M>& s) { s.prepareIteration(); return (int)s.finishIteration(); });
            else both(c, "mpc", p, [](Solver<N, M>& s) { s.prepareMPCIteration(); return (int)s.finishMPCIteration(); });
        }
        compare(c, mode == 3 ? "mpc" : "hist", p);
    }
    if (r.coin(0.3))
    {
        both(c, "solve", p, [](Solver<N, M>& s) { return (int)s.solve(); });
        compare(c, "solve", p);
    }
    c.check("one_thread_per_instance", p.w.clashes == 0, str(p.w.clashes.load()) + " concurrent uses of one instance");
    c.check("callbacks_used", p.w.uses > 0);
    if (r.coin()) { p.mp.reset(); p.st.reset(); }
}

// creation and destruction at any time, several backends at the same time
SCENARIO_W(lifecycle, 2)
{
    Rng& r = c.rng;
    Pair p;
    p.m = Model<N, M>::random(r, 2);
    p.c = CostM<N, M>::random(r, true);
    p.s = rset(r);
    p.K = r.in(2, 12);
    p.x0 = r.mat<N, 1>(-1, 1);
    p.w.delays = true;
    auto g = guess<N, M>(randomGuess<N, M>(r, p.x0, p.K, 0.8), p.s.dt);
    p.st = p.make(1, nullptr);
    p.st->setInitialGuess(g);
    int n = r.in(1, 3), k = r.in(0, 3);
    std::vector<std::shared_ptr<Solver<N, M>>> v;
    for (int i = 0; i < n; ++i)
    {
        v.push_back(p.make(r.in(2, 6), &p.w));
        if (r.coin(0.3)) v.push_back(nullptr), v.back() = p.make(2, &p.w), v.pop_back();
        if (r.coin(0.3)) usleep(r.in(0, 200));
    }
    for (auto& s : v) s->setInitialGuess(g);
    for (int i = 0; i < k; ++i)
    {
        p.mp = v[r.in(0, n - 1)];
        if (!p.mp) continue;
        try { p.mp->runIteration(); } catch (std::runtime_error&) { throw Skip(); }
        if (r.coin(0.2)) { for (auto& s : v) if (s == p.mp) s.reset(); p.mp.reset(); }
    }
    // a fresh backend still agrees with the single-threaded one
    p.mp = p.make(r.in(2, 5), &p.w);
    p.mp->setInitialGuess(g);
    v.clear();
    int its = r.in(1, 3);
    for (int i = 0; i < its; ++i) both(c, "life", p, [](Solver<N, M>& s) { return (int)s.runIteration(); });
    compare(c, "life", p);
    c.check("life_one_thread_per_instance", p.w.clashes == 0, str(p.w.clashes.load()));
    p.mp.reset();
}
MON_MAIN
