// C02 (consistency and truthful reports), C03 (line search), C04 (linear-quadratic problems in one iteration)
#include "nloc.hpp"
using namespace mon;
using namespace nl;
static const int N = 3, M = 2;
typedef Eigen::Matrix<double, N, 1> X;
typedef Eigen::Matrix<double, M, 1> U;
typedef Traj<N, M> T;

struct Setup
{
    Model<N, M> m;
    CostM<N, M> c;
    NLOptConSettings s;
    int K;
    X x0;
    std::shared_ptr<Sys<N, M>> sys;
    std::shared_ptr<Lin<N, M>> lin;
    std::shared_ptr<Cost<N, M>> cost;
    std::shared_ptr<Solver<N, M>> make()
    {
        sys = mkSys<N, M>(m, s.dt, nullptr);
        lin = std::make_shared<Lin<N, M>>(m, s.dt);
        cost = std::make_shared<Cost<N, M>>(c);
#ifdef DISC
        Problem<N, M> p(K, x0, sys, cost, lin);
#else
        Problem<N, M> p(K * s.dt, x0, sys, cost, lin);
#endif
        return std::make_shared<Solver<N, M>>(p, s);
    }
};
static int someK(Rng& r) { return r.coin(0.15) ? r.in(1, 3) : r.in(3, 20); }

static double meritOf(const Setup& p, const T& t) { return costOf<N, M>(p.c, t.x, t.u, p.s.dt) + p.s.meritFunctionRho * defectL1<N, M>(p.m, p.s, t.x, t.u); }

// everything the solver says about its current trajectory must be true
static void truthful(Case& c, const char* tag, Setup& p, Solver<N, M>& s)
{
    std::string g(tag);
    T t = solution<N, M>(s);
    if (!c.check(g + "_sizes", (int)t.x.size() == p.K + 1 && (int)t.u.size() == p.K && (int)t.L.size() == p.K, "x " + str(t.x.size()) + " u " + str(t.u.size()) + " K " + str(p.K))) return;
    for (auto& v : t.x) if (!v.allFinite()) throw Skip();
    double big = 0;
    for (auto& v : t.x) big = std::max(big, v.lpNorm<Eigen::Infinity>());
    for (auto& v : t.u) big = std::max(big, v.lpNorm<Eigen::Infinity>());
    if (big > 1e3) throw Skip();
    auto& ta = s.getTimeArray();
    c.check(g + "_time_size", (int)ta.size() == p.K + 1, str(ta.size()));
    for (int k = 0; k <= p.K && k < (int)ta.size(); ++k) c.near(g + "_time", ta[k], k * p.s.dt, 1e-9);
    c.near(g + "_horizon", s.getTimeHorizon(), p.K * p.s.dt, 1e-9);
    auto xt = s.getStateTrajectory();
    auto ut = s.getControlTrajectory();
    c.check(g + "_traj_sizes", (int)xt.size() == p.K + 1 && (int)ut.size() == p.K);
    for (int k = 0; k < p.K; ++k)
    {
        c.nearm(g + "_xtraj", xt[k], t.x[k], 1e-12);
        c.nearm(g + "_utraj", ut[k], t.u[k], 1e-12);
    }
    c.nearm(g + "_start", t.x[0], p.x0, 1e-12);
    c.near(g + "_cost", s.getCost(), costOf<N, M>(p.c, t.x, t.u, p.s.dt), 1e-8);
    // simulate the returned policy, restarting at the beginning of each shot
    int n = shotLen(p.s, p.K);
    double dsum = 0;
    for (int k0 = 0; k0 < p.K; k0 += n)
    {
        X x = t.x[k0];
        for (int i = k0; i < std::min(p.K, k0 + n); ++i)
        {
            if (i > k0) c.nearm(g + "_policy_rollout", x, t.x[i], 1e-7);
            U u = t.u[i] + t.L[i] * (x - t.x[i]);
            x = step<N, M>(p.m, p.s, x, u, i);
            if (!x.allFinite()) throw Skip();
        }
        int e = std::min(p.K, k0 + n);
        if (e == p.K) c.nearm(g + "_policy_rollout_end", x, t.x[e], 1e-7);
        else dsum += (x - t.x[e]).lpNorm<1>();
    }
    c.near(g + "_total_defect", s.getBackend()->getTotalDefect(), dsum, 1e-7);
    auto& sm = s.getBackend()->getSummary();
    c.near(g + "_summary_defect", sm.defect_l1_norms.back(), dsum, 1e-7);
    c.near(g + "_summary_cost", sm.totalCosts.back(), costOf<N, M>(p.c, t.x, t.u, p.s.dt), 1e-8);
    c.near(g + "_summary_merit", sm.merits.back(), meritOf(p, t), 1e-7);
}

static void iterate(Solver<N, M>& s, int n)
{
    try
    {
        for (int k = 0; k < n; ++k) s.runIteration();
    } catch (std::runtime_error& e)
    {
        if (std::string(e.what()).find("unstable") != std::string::npos) throw Skip();  // the guess itself cannot be rolled out
        throw;
    }
}

// random histories of iterations and problem changes
SCENARIO_W(history, 4)
{
    Rng& r = c.rng;
    Setup p;
    p.m = Model<N, M>::random(r, r.in(0, 3));
    p.c = CostM<N, M>::random(r, r.coin());
    p.s = nl::settings(r, r.coin(0.3) ? r.in(2, 3) : 1);
    p.K = someK(r);
#ifndef DISC
    if (r.coin())
    {
        p.s.integrator = r.coin(0.7) ? ct::core::IntegrationType::RK4 : (r.coin() ? ct::core::IntegrationType::RK4CT : ct::core::IntegrationType::EULERCT);
        p.s.K_sim = r.in(1, 3);
        p.s.useSensitivityIntegrator = r.coin();
        p.s.discretization = (NLOptConSettings::APPROXIMATION)(r.coin() ? NLOptConSettings::APPROXIMATION::BACKWARD_EULER : NLOptConSettings::APPROXIMATION::TUSTIN);
    }
#endif
    p.x0 = r.mat<N, 1>(-1, 1);
    c.cfg = show(p.s, p.K);
    auto s = p.make();
    s->setInitialGuess(guess<N, M>(randomGuess<N, M>(r, p.x0, p.K, 0.5), p.s.dt));
    int n = r.in(3, 8);
    for (int i = 0; i < n; ++i)
    {
        int op = r.in(0, 9);
        c.cfg += " op" + str(op);
        if (op == 0)
        {
            p.x0 = r.mat<N, 1>(-1, 1);
            s->changeInitialState(p.x0);
        }
        else if (op == 1)
        {
            p.K = someK(r);
#ifdef DISC
            s->getBackend()->changeTimeHorizon(p.K);
#else
            s->changeTimeHorizon(p.K * p.s.dt);
#endif
            p.x0 = r.mat<N, 1>(-1, 1);
            s->changeInitialState(p.x0);
            T g = randomGuess<N, M>(r, p.x0, p.K + (r.coin(0.3) ? r.in(1, 4) : 0), 0.5);
            s->setInitialGuess(guess<N, M>(g, p.s.dt));
        }
        else if (op == 2)
        {
            p.c = CostM<N, M>::random(r, r.coin());
            s->changeCostFunction(std::make_shared<Cost<N, M>>(p.c));
        }
        else if (op == 3)
        {
            p.m = Model<N, M>::random(r, r.in(0, 2));
            s->changeNonlinearSystem(mkSys<N, M>(p.m, p.s.dt, nullptr));
            s->changeLinearSystem(std::make_shared<Lin<N, M>>(p.m, p.s.dt));
        }
        else if (op == 4)
        {
            NLOptConSettings q = nl::settings(r, p.s.nThreads);
            q.integrator = p.s.integrator; q.K_sim = p.s.K_sim; q.useSensitivityIntegrator = p.s.useSensitivityIntegrator; q.discretization = p.s.discretization;
#ifdef DISC
            q.dt = p.s.dt;
#else
            if (p.s.integrator == ct::core::IntegrationType::RK4) q.K_sim = r.in(1, 3);
#endif
            p.s = q;
            s->configure(q);
            c.cfg += "(" + show(p.s, p.K) + ")";
        }
        else if (op == 5)
        {
            p.x0 = r.mat<N, 1>(-1, 1);
            s->setInitialGuess(guess<N, M>(randomGuess<N, M>(r, p.x0, p.K, 0.5), p.s.dt));
        }
        int its = r.in(1, 3);
        iterate(*s, its);
        truthful(c, "hist", p, *s);
    }
    if (r.coin(0.3))
    {
        p.s.max_iterations = r.in(1, 20);
        s->configure(p.s);
        try { s->solve(); } catch (std::runtime_error&) { throw Skip(); }
        truthful(c, "solve", p, *s);
    }
}

// line search: monotone merit, rejected iterations change nothing, step sizes come from the sequence
SCENARIO_W(merit, 3)
{
    Rng& r = c.rng;
    Setup p;
    p.m = Model<N, M>::random(r, r.in(2, 3));
    p.c = CostM<N, M>::random(r, r.coin());
    p.s = nl::settings(r, r.coin(0.3) ? r.in(2, 4) : 1);
    p.s.lineSearchSettings.type = r.coin(0.7) ? LineSearchSettings::SIMPLE : LineSearchSettings::ARMIJO;
    p.K = someK(r);
#ifndef DISC
    if (r.coin(0.6))
    {
        p.s.integrator = ct::core::IntegrationType::RK4;  // inexact Jacobians: the search direction may be poor
        p.s.K_sim = r.in(1, 2);
    }
#endif
    p.x0 = 1.5 * r.mat<N, 1>(-1, 1);
    c.cfg = show(p.s, p.K);
    auto s = p.make();
    s->setInitialGuess(guess<N, M>(randomGuess<N, M>(r, p.x0, p.K, r.uni(0.2, 2)), p.s.dt));
    auto& ls = p.s.lineSearchSettings;
    T before;
    double mb = 0;
    int n = r.in(4, 12), rejected = 0;
    for (int i = 0; i < n; ++i)
    {
        bool more;
        try { more = s->runIteration(); } catch (std::runtime_error&) { throw Skip(); }
        T t = solution<N, M>(*s);
        for (auto& v : t.x) if (!v.allFinite() || v.lpNorm<Eigen::Infinity>() > 1e3) throw Skip();
        for (auto& v : t.u) if (!v.allFinite() || v.lpNorm<Eigen::Infinity>() > 1e4) throw Skip();
        double m = meritOf(p, t);
        auto& sm = s->getBackend()->getSummary();
        double al = sm.stepSizes.back();
        c.near("reported_merit", sm.merits.back(), m, 1e-7);
        bool inSeq = al == 0;
        for (size_t k = 0; k < ls.maxIterations; ++k) inSeq = inSeq || std::abs(al - ls.alpha_0 * std::pow(ls.n_alpha, (double)k)) < 1e-9 * ls.alpha_0 + 1e-12;
        c.check("step_in_sequence", inSeq, str(al));
        if (i > 0)
        {
            c.check("merit_not_worse", m <= mb + 1e-9 * (1 + std::abs(mb)), full(m) + " after " + full(mb) + " alpha " + str(al));
            if (al == 0)
            {
                ++rejected;
                bool same = true;
                for (size_t k = 0; k < t.x.size(); ++k) same = same && t.x[k] == before.x[k];
                for (size_t k = 0; k < t.u.size(); ++k) same = same && t.u[k] == before.u[k];
                c.check("rejected_unchanged", same && m == mb, "an iteration without accepted step changed the trajectory");
                c.near("rejected_cost", s->getCost(), costOf<N, M>(p.c, before.x, before.u, p.s.dt), 1e-8);
                c.near("rejected_defect", s->getBackend()->getTotalDefect(), defectL1<N, M>(p.m, p.s, before.x, before.u), 1e-7);
            }
        }
        if (al == 0) c.check("rejected_stops", !more, "no step accepted but the iteration asks for another one");
        before = t;
        mb = m;
    }
    c.sig.i(rejected);
}

// iterates and accepted steps of the reference implementation (Euler / discrete time)
SCENARIO_W(reference, 4)
{
    Rng& r = c.rng;
    Setup p;
    p.m = Model<N, M>::random(r, r.in(1, 3));
    p.c = CostM<N, M>::random(r, r.coin());
    p.s = nl::settings(r, r.coin(0.25) ? r.in(2, 4) : 1);
    if (p.s.lineSearchSettings.type == LineSearchSettings::ARMIJO) p.s.lineSearchSettings.type = LineSearchSettings::SIMPLE;
    p.K = someK(r);
    p.x0 = r.uni(0.2, 2) * r.mat<N, 1>(-1, 1);
    c.cfg = show(p.s, p.K);
    auto s = p.make();
    T g = randomGuess<N, M>(r, p.x0, p.K, r.uni(0.2, 2));
    Ref<N, M> ref{p.m, p.c, p.s};
    ref.init(g);
    s->setInitialGuess(guess<N, M>(g, p.s.dt));
    int n = r.in(1, 6);
    for (int i = 0; i < n; ++i)
    {
        ref.iterate();
        if (ref.margin < 1e-7) throw Skip();  // a candidate too close to the acceptance threshold to call
        for (auto& v : ref.t.x) if (!(v.lpNorm<Eigen::Infinity>() < 50)) throw Skip();
        for (auto& v : ref.t.u) if (!(v.lpNorm<Eigen::Infinity>() < 500)) throw Skip();
        s->runIteration();
        T t = solution<N, M>(*s);
        double al = s->getBackend()->getSummary().stepSizes.back();
        if (!c.near("accepted_step", al, ref.alpha, 1e-9)) return;
        for (int k = 0; k <= p.K; ++k) if (!c.nearm("states", t.x[k], ref.t.x[k], 1e-6)) return;
        for (int k = 0; k < p.K; ++k) if (!c.nearm("inputs", t.u[k], ref.t.u[k], 1e-6)) return;
        for (int k = 0; k < p.K; ++k) if (!c.nearm("gains", t.L[k], ref.t.L[k], 1e-5)) return;
        // resynchronise so that rounding does not accumulate
        ref.t = t;
    }
}

// linear-quadratic problems: one iteration of every algorithm, from any guess, gives the minimiser
SCENARIO_W(lq, 4)
{
    Rng& r = c.rng;
    Setup p;
    p.m = Model<N, M>::random(r, r.in(0, 1));
    p.c = CostM<N, M>::random(r, true);
    p.K = someK(r);
    p.x0 = r.mat<N, 1>(-2, 2);
    // dense reference: condense the dynamics, solve the normal equations
    NLOptConSettings base = nl::settings(r, 1);
    base.lineSearchSettings.type = LineSearchSettings::NONE;
#ifndef DISC
    if (r.coin(0.4))
    {
        base.integrator = ct::core::IntegrationType::RK4;
        base.K_sim = r.in(1, 3);
        base.useSensitivityIntegrator = true;
    }
#endif
    p.s = base;
    int K = p.K, D = K * M;
    auto f = [&](const Eigen::VectorXd& u) {
        std::vector<X> x{p.x0};
        std::vector<U> uu;
        for (int k = 0; k < K; ++k)
        {
            uu.push_back(u.segment<M>(k * M));
            x.push_back(step<N, M>(p.m, p.s, x[k], uu[k], k));
        }
        return std::make_pair(x, uu);
    };
    // states are affine in u: columns by differences
    auto z = f(Eigen::VectorXd::Zero(D));
    std::vector<Eigen::MatrixXd> J(K + 1, Eigen::MatrixXd::Zero(N, D));
    for (int j = 0; j < D; ++j)
    {
        auto y = f(Eigen::VectorXd::Unit(D, j));
        for (int k = 0; k <= K; ++k) J[k].col(j) = y.first[k] - z.first[k];
    }
    Eigen::MatrixXd H = Eigen::MatrixXd::Zero(D, D);
    Eigen::VectorXd gr = Eigen::VectorXd::Zero(D);
    U u0 = U::Zero();
    for (int k = 0; k < K; ++k)
    {
        double t = k * p.s.dt;
        Eigen::MatrixXd E = Eigen::MatrixXd::Zero(M, D);
        E.block(0, k * M, M, M).setIdentity();
        H += p.s.dt * (J[k].transpose() * p.c.Q * J[k] + E.transpose() * p.c.R * E + E.transpose() * p.c.P * J[k] + J[k].transpose() * p.c.P.transpose() * E);
        gr += p.s.dt * (J[k].transpose() * p.c.lx(z.first[k], u0, t) + E.transpose() * p.c.lu(z.first[k], u0, t));
    }
    H += J[K].transpose() * p.c.Qf * J[K];
    gr += J[K].transpose() * p.c.Qf * (z.first[K] - p.c.xf);
    Eigen::LDLT<Eigen::MatrixXd> F(H);
    if (!F.isPositive()) throw Skip();
    auto opt = f(-F.solve(gr));
    double Jopt = costOf<N, M>(p.c, opt.first, opt.second, p.s.dt);
    double sc = 1;
    for (auto& v : opt.first) sc = std::max(sc, v.cwiseAbs().maxCoeff());
    if (sc > 1e3) throw Skip();
    std::vector<Eigen::Matrix<double, M, N>> L;
    int alg0 = r.in(0, 6), count = r.in(1, 3);
    for (int a = 0; a < count; ++a)
    {
        NLOptConSettings q = nl::settings(r, r.coin(0.2) ? 2 : 1);
        q.nlocp_algorithm = (ALG)((alg0 + 2 * a) % 7);
        if (q.nlocp_algorithm == ALG::ILQR || q.nlocp_algorithm == ALG::GNMS) q.K_shot = 1;
        q.dt = base.dt; q.integrator = base.integrator; q.K_sim = base.K_sim; q.useSensitivityIntegrator = base.useSensitivityIntegrator;
        q.lineSearchSettings.type = r.coin(0.7) ? LineSearchSettings::NONE : LineSearchSettings::SIMPLE;
        q.lineSearchSettings.alpha_0 = 1;
        q.lineSearchSettings.maxIterations = 5;
        p.s = q;
        c.cfg = show(p.s, K);
        auto s = p.make();
        T g = randomGuess<N, M>(r, p.x0, K, r.uni(0.5, 3));
        s->setInitialGuess(guess<N, M>(g, p.s.dt));
        s->runIteration();
        T t = solution<N, M>(*s);
        // with a line search the full step may be refused only if it does not lower the merit
        bool full = s->getBackend()->getSummary().stepSizes.back() == 1.0;
        if (!full && q.lineSearchSettings.type == LineSearchSettings::SIMPLE && shotLen(q, K) < K) continue;
        c.check("full_step", full, str(s->getBackend()->getSummary().stepSizes.back()));
        for (int k = 0; k < K; ++k) c.nearm("u_opt", t.u[k], opt.second[k], 1e-5);
        for (int k = 0; k <= K; ++k) c.nearm("x_opt", t.x[k], opt.first[k], 1e-5);
        c.near("cost_opt", s->getCost(), Jopt, 1e-6);
        if (closedLoop(q))
        {
            if (L.empty())
            {
                // gain of stage k: how the optimal input reacts to the state; checked through a perturbed initial state
                X e = 0.3 * r.mat<N, 1>(-1, 1);
                Setup p2 = p;
                p2.x0 = p.x0 + e;
                auto s2 = p2.make();
                T g2 = randomGuess<N, M>(r, p2.x0, K, 1);
                p2.s.lineSearchSettings.type = LineSearchSettings::NONE;
                s2->configure(p2.s);
                s2->setInitialGuess(guess<N, M>(g2, p.s.dt));
                s2->runIteration();
                T t2 = solution<N, M>(*s2);
                for (int k = 0; k < K; ++k) c.nearm("gain_optimal", t.u[k] + t.L[k] * (t2.x[k] - t.x[k]), t2.u[k], 1e-5);
                L = t.L;
            }
            for (int k = 0; k < K; ++k) c.nearm("gain_agree", t.L[k], L[k], 1e-6);
        }
        // further iterations and warm starts stay there
        if (r.coin(0.5))
        {
            s->runIteration();
            T t3 = solution<N, M>(*s);
            for (int k = 0; k < K; ++k) c.nearm("stays", t3.u[k], opt.second[k], 1e-5);
        }
    }
}
MON_MAIN
