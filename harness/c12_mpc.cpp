// C12: model predictive control - horizons, delays, policy shifting, time stamps
#include "nloc.hpp"
using mon::Case;
using namespace ct::optcon;
typedef ct::core::StateFeedbackController<2, 1> Pol;
typedef Eigen::Vector2d X;
typedef Eigen::Matrix<double, 1, 1> U;

struct P  // a policy as plain data
{
    std::vector<X> x; std::vector<U> u; std::vector<Eigen::Matrix<double, 1, 2>> K; std::vector<double> tx, tu, tk;
    P() {}
    P(const Pol& p)
    {
        for (size_t i = 0; i < p.x_ref().size(); ++i) { x.push_back(p.x_ref()[i]); tx.push_back(p.getReferenceStateTrajectory().getTimeArray()[i]); }
        for (size_t i = 0; i < p.uff().size(); ++i) { u.push_back(p.uff()[i]); tu.push_back(p.getFeedforwardTrajectory().getTimeArray()[i]); }
        for (size_t i = 0; i < p.K().size(); ++i) { K.push_back(p.K()[i]); tk.push_back(p.getFeedbackTrajectory().getTimeArray()[i]); }
    }
    // drop n stages at the front, then make it k stages long by holding the last values
    P shifted(int n, int k) const
    {
        P o;
        for (size_t i = n; i < x.size(); ++i) o.x.push_back(x[i]);
        for (size_t i = n; i < u.size(); ++i) { o.u.push_back(u[i]); o.K.push_back(K[i]); }
        if (k > 0)
        {
            int d = x.size() - u.size();
            while ((int)o.u.size() < k) { o.u.push_back(o.u.back()); o.K.push_back(o.K.back()); o.x.push_back(o.x.back()); }
            o.u.resize(k); o.K.resize(k); o.x.resize(k + d);
        }
        return o;
    }
    double dist(const P& o) const
    {
        if (x.size() != o.x.size() || u.size() != o.u.size() || K.size() != o.K.size()) return 1e300;
        double e = 0;
        for (size_t i = 0; i < x.size(); ++i) e = std::max(e, (x[i] - o.x[i]).cwiseAbs().maxCoeff());
        for (size_t i = 0; i < u.size(); ++i) e = std::max(e, std::max((u[i] - o.u[i]).cwiseAbs().maxCoeff(), (K[i] - o.K[i]).cwiseAbs().maxCoeff()));
        return e == e ? e : 1e300;
    }
    void checkGrid(Case& c, double dt) const
    {
        c.check("policy-sizes", u.size() == K.size() && (x.size() == u.size() || x.size() == u.size() + 1));
        for (auto* t : {&tx, &tu, &tk})
            for (size_t i = 0; i < t->size(); ++i) c.near("policy-time-grid", (*t)[i], i * dt, 1e-9);
    }
};
// stages that may be dropped when shifting by d (two answers if d is on the grid up to rounding)
static std::vector<int> drops(double d, int n, double dt)
{
    std::vector<int> v;
    for (int e : {0, -1, 1})
    {
        double q = d / dt + 1e-7 * e;
        int k = std::min(std::max(0, (int)std::floor(q)), n - 1);
        if (std::find(v.begin(), v.end(), k) == v.end()) v.push_back(k);
    }
    return v;
}
static P randomPolicy(mon::Rng& r, int n, double dt, Pol& out, bool extra = true)
{
    ct::core::StateVectorArray<2> x(extra ? n + 1 : n); ct::core::ControlVectorArray<1> u(n); ct::core::FeedbackArray<2, 1> K(n);
    for (auto& v : x) v = r.mat<2, 1>(-1, 1);
    for (int i = 0; i < n; ++i) { u[i] = r.mat<1, 1>(-1, 1); K[i] = 0.3 * r.mat<1, 2>(-1, 1); }
    out = Pol(x, u, K, dt);
    return P(out);
}
static mpc_settings randomSettings(mon::Rng& r, double dt, bool ext)
{
    mpc_settings s;
    s.useExternalTiming_ = ext;
    s.measureDelay_ = !ext && r.coin();
    s.mpc_mode = (MPC_MODE)r.in(0, 3);
    s.minimumTimeHorizonMpc_ = r.uni(2 * dt, 1.5);
    s.fixedDelayUs_ = r.coin() ? 0 : r.in(0, 200000);
    s.additionalDelayUs_ = r.coin() ? 0 : r.in(0, 100000);
    s.stateForwardIntegration_ = r.coin(0.7);
    s.stateForwardIntegratorType_ = r.coin() ? ct::core::IntegrationType::EULER : ct::core::IntegrationType::RK4;
    s.stateForwardIntegration_dt_ = r.uni(0.004, 0.03);
    s.postTruncation_ = r.coin();
    s.coldStart_ = r.coin(0.2);
    s.delayMeasurementMultiplier_ = r.uni(0.3, 1.2);
    return s;
}
static bool horizonModel(const mpc_settings& s, double T0, double sinceFirst, double stop, double& T)
{
    double left = std::max(0.0, T0 - sinceFirst - stop), m = s.minimumTimeHorizonMpc_;
    switch (s.mpc_mode)
    {
        case CONSTANT_RECEDING_HORIZON: T = T0; return false;
        case FIXED_FINAL_TIME: T = left; return left <= 0;
        case FIXED_FINAL_TIME_WITH_MIN_TIME_HORIZON: T = std::max(m, left); return left <= m;
        default: T = std::min(m, left); return T <= 0;
    }
}

SCENARIO(horizon)
{
    auto& r = c.rng;
    mpc_settings s = randomSettings(r, 0.05, r.coin());
    double T0 = r.uni(0.1, 5);
    MpcTimeHorizon h(s, T0);
    for (int i = 0; i < 15; ++i)
    {
        if (r.coin(0.2)) { s = randomSettings(r, 0.05, r.coin()); h.updateSettings(s); }
        if (r.coin(0.2)) { T0 = r.uni(0.1, 5); h.updateInitialTimeHorizon(T0); }
        double a = r.coin(0.2) ? 0 : r.uni(0, 6), b = r.coin(0.2) ? 0 : r.uni(0, 1), T = -1, Te;
        bool f = h.computeNewTimeHorizon(a, b, T), fe = horizonModel(s, T0, a, b, Te);
        c.near("horizon", T, Te, 1e-12);
        c.check("final-point-flag", f == fe);
        if (s.mpc_mode == FIXED_FINAL_TIME || s.mpc_mode == RECEDING_HORIZON_WITH_FIXED_FINAL_TIME) c.check("never-later-than-final-time", T >= 0 && (T == 0 || a + b + T <= T0 + 1e-9));
    }
}

SCENARIO(keeper)
{
    auto& r = c.rng;
    mpc_settings s = randomSettings(r, 0.05, true);
    double T0 = r.uni(0.3, 4);
    auto h = std::make_shared<MpcTimeHorizon>(s, T0);
    MpcTimeKeeper k(h, s);
    bool threw = false;
    try { double a, b, d; k.computeNewTimings(0, 1, a, b, d); } catch (std::exception&) { threw = true; }
    c.check("refuses-uninitialised", threw);
    k.initialize();
    double t = r.uni(-3, 10), tL = 0, t1 = 0;
    bool first = true;
    for (int i = 0; i < 25; ++i)
    {
        t += r.uni(0, 0.3);
        double cur = r.uni(0.1, 3), T = -1, a = -1, b = -1;
        k.computeNewTimings(t, cur, T, a, b);
        double ae = first ? 0 : t - tL, be = first ? 0 : ae + 1e-6 * (s.fixedDelayUs_ + s.additionalDelayUs_), Te;
        ae = std::min(ae, cur); be = std::min(be, cur);
        bool fe = horizonModel(s, T0, first ? 0 : t - t1, be, Te);
        c.near("forward-start", a, ae, 1e-9);
        c.near("forward-stop", b, be, 1e-9);
        c.near("keeper-horizon", T, Te, 1e-9);
        c.check("keeper-final-flag", k.finalPointReached() == fe || std::fabs(Te - (s.mpc_mode == FIXED_FINAL_TIME_WITH_MIN_TIME_HORIZON ? s.minimumTimeHorizonMpc_ : 0)) < 1e-9);
        double q = t + r.uni(0, 0.2);
        c.near("since-first", k.timeSinceFirstSuccessfulSolve(q), first ? 0 : q - t1, 1e-9);
        c.near("since-previous", k.timeSincePreviousSuccessfulSolve(q), first ? 0 : q - tL, 1e-9);
        if (r.coin(0.15)) { mpc_settings n = randomSettings(r, 0.05, true); s = n; k.updateSettings(s); h->updateSettings(s); }
        if (r.coin(0.1)) { k.initialize(); first = true; continue; }
        if (r.coin(0.1)) { T0 = r.uni(0.3, 4); h = std::make_shared<MpcTimeHorizon>(s, T0); k = MpcTimeKeeper(h, s); k.initialize(); first = true; continue; }
        if (r.coin(0.2)) continue;  // another preparation before the solve
        t += r.uni(0, 0.1);
        k.startDelayMeasurement(t);
        k.stopDelayMeasurement(t);
        c.near("delay-not-measured", k.getMeasuredDelay(), 0, 0);
        c.near("delay-sum", k.getSummedDelay(), 0, 0);
        tL = t;
        if (first) { t1 = t; first = false; }
    }
}

SCENARIO_W(shift, 2)
{
    auto& r = c.rng;
    double dt = r.coin() ? 0.01 * r.in(1, 10) : r.uni(0.01, 0.1);
    StateFeedbackPolicyHandler<2, 1, double> h(dt);
    Pol p;
    P m = randomPolicy(r, r.in(1, 30), dt, p, r.coin(0.8));
    for (int i = 0; i < 8; ++i)
    {
        int n = m.u.size();
        double d = r.coin(0.2) ? 0 : r.coin(0.3) ? r.in(0, 2 * n) * dt : r.coin(0.2) ? r.uni(-0.5, 0) : r.uni(0, 1.5 * n * dt);
        bool trunc = r.coin(0.4);
        double T = r.coin(0.2) ? r.uni(0, 0.6 * dt) : r.uni(0, 40 * dt), eff = -1;
        int k = std::max(1, (int)std::lround(T / dt));
        if (!trunc) h.designWarmStartingPolicy(d, T, p); else h.truncateSolutionFront(d, p, eff);
        P o(p);
        double best = 1e300; P be;
        for (int q : drops(d, n, dt))
        {
            P e = m.shifted(q, trunc ? 0 : k);
            double v = o.dist(e);
            if (trunc) v += std::fabs(eff - q * dt);
            if (v < best) { best = v; be = e; }
        }
        c.near(trunc ? "truncated-policy" : "shifted-policy", best, 0, 1e-9);
        if (!c.seen.empty()) return;
        o.checkGrid(c, dt);
        m = o;
    }
}

// records what MPC hands to the solver; can be told to fail
struct Spy
{
    typedef NLOptConSolver<2, 1> B;
    typedef B::Scalar_t Scalar_t; typedef B::Policy_t Policy_t; typedef B::Settings_t Settings_t; typedef B::OptConProblem_t OptConProblem_t;
    static const size_t STATE_D = 2, CONTROL_D = 1, POS_DIM = 1, VEL_DIM = 1;
    B b;
    Spy(const OptConProblem_t& p, const Settings_t& s) : b(p, s) {}
    bool fail = false;
    std::vector<double> T; std::vector<P> g; std::vector<X> x0;
    int prep = 0, fin = 0;
    double getTimeHorizon() const { return b.getTimeHorizon(); }
    const Policy_t& getSolution() { return b.getSolution(); }
    void changeTimeHorizon(const double& t) { T.push_back(t); b.changeTimeHorizon(t); }
    void setInitialGuess(const Policy_t& p) { g.push_back(P(p)); b.setInitialGuess(p); }
    void changeInitialState(const ct::core::StateVector<2>& x) { x0.push_back(x); b.changeInitialState(x); }
    void prepareMPCIteration() { prep++; b.prepareMPCIteration(); }
    bool finishMPCIteration() { fin++; bool ok = b.finishMPCIteration(); return ok && !fail; }
};
struct Lawf : public ct::core::Controller<2, 1>
{
    Eigen::Matrix<double, 1, 2> K; double a;
    Lawf* clone() const override { return new Lawf(*this); }
    void computeControl(const ct::core::StateVector<2>& x, const double& t, ct::core::ControlVector<1>& u) override { u = K * x; u(0) += a * std::sin(3 * t); }
};
struct FixedHorizon : public MpcTimeHorizon
{
    double T; bool f;
    FixedHorizon(double TT, bool ff) : MpcTimeHorizon(mpc_settings(), 1.0), T(TT), f(ff) {}
    bool computeNewTimeHorizon(const double&, const double&, double& n) override { n = T; return f; }
};
struct SpyHandler : public StateFeedbackPolicyHandler<2, 1, double>
{
    int n = 0;
    using StateFeedbackPolicyHandler<2, 1, double>::StateFeedbackPolicyHandler;
    void designWarmStartingPolicy(const double& d, const double& T, Pol& p) override { n++; StateFeedbackPolicyHandler<2, 1, double>::designWarmStartingPolicy(d, T, p); }
};

static void cycle(Case& c, bool ext)
{
    auto& r = c.rng;
    NLOptConSettings ns = nl::settings(r, 1);
    ns.dt = r.coin() ? 0.05 : r.uni(0.03, 0.08);
    ns.max_iterations = 1;
    ns.lineSearchSettings.type = LineSearchSettings::NONE;
    ns.nlocp_algorithm = r.coin() ? nl::ALG::ILQR : nl::ALG::GNMS;
    ns.K_shot = 1;
    auto model = nl::Model<2, 1>::random(r, r.in(0, 2));
    auto cost = nl::CostM<2, 1>::random(r, true);
    double T0 = r.uni(6, 30) * ns.dt;
    auto grid = [&](double q) { return ns.computeK(q) * ns.dt; };  // the solver's horizon is a multiple of its time step
    X x = r.mat<2, 1>(-0.5, 0.5);
    nl::Problem<2, 1> pr(T0, x, nl::mkSys<2, 1>(model, ns.dt, nullptr), std::make_shared<nl::Cost<2, 1>>(cost), std::make_shared<nl::Lin<2, 1>>(model, ns.dt));
    mpc_settings s = randomSettings(r, ns.dt, ext);
    int Kinit = ns.computeK(T0);
    T0 = grid(T0);
    double T = T0;
    if (s.coldStart_) s.minimumTimeHorizonMpc_ = std::min(s.minimumTimeHorizonMpc_, T0);
    bool cold = s.coldStart_;
    auto sh = std::make_shared<SpyHandler>(ns.dt);
    bool custom = !cold;
    std::shared_ptr<MpcTimeHorizon> ch;
    if (r.coin(0.2)) ch = std::make_shared<MpcTimeHorizon>(s, T0);
    MPC<Spy> mpc(pr, ns, s, custom ? sh : nullptr, ch);
    // the same controller with the default warm start and the unwrapped solver, run in lock step
    std::unique_ptr<MPC<NLOptConSolver<2, 1>>> twin;
    if (ext && r.coin(0.4)) twin.reset(new MPC<NLOptConSolver<2, 1>>(pr, ns, s));
    Spy& spy = mpc.getSolver();
    Pol init;
    P ip = randomPolicy(r, Kinit, ns.dt, init);
    if (r.coin(0.5)) for (auto& v : init.getReferenceStateTrajectory().getDataArray()) v = x;
    ip = P(init);
    mpc.setInitialGuess(init);
    if (twin) twin->setInitialGuess(init);
    P last = ip;      // policy held by MPC
    Pol lastPol = init;
    FixedHorizon* fixed = nullptr;
    std::shared_ptr<MpcTimeHorizon> keep;
    double t = r.uni(-1, 5), tL = 0, t1 = 0;
    bool first = true;
    c.cfg = "mode " + mon::str(int(s.mpc_mode)) + " cold " + mon::str(cold) + " alg " + mon::str(int(ns.nlocp_algorithm)) + " fwd " + mon::str(s.stateForwardIntegration_) + " post " + mon::str(s.postTruncation_) + (ext ? " ext" : " int");
    int cycles = r.in(3, ext ? 14 : 5), calls = 0;
    for (int i = 0; i < cycles && c.seen.empty(); ++i)
    {
        if (r.coin(0.1))
        {
            T0 = cold ? r.uni(2 * ns.dt, T0) : r.uni(6, 30) * ns.dt; T = grid(T0);
            mpc.resetMpc(T0); if (twin) twin->resetMpc(T0); first = true;
            c.near("reset-horizon", spy.getTimeHorizon(), T, 1e-12);
            c.near("reset-since-first", mpc.timeSinceFirstSuccessfulSolve(t + 1), 0, 0);
        }
        if (r.coin(0.1)) { bool cs = s.coldStart_; bool md = s.measureDelay_; s = randomSettings(r, ns.dt, ext); s.coldStart_ = cs; s.measureDelay_ = md; if (cold) s.minimumTimeHorizonMpc_ = std::min(s.minimumTimeHorizonMpc_, Kinit * ns.dt); mpc.updateSettings(s); if (twin) twin->updateSettings(s); }
        if (r.coin(0.07))
        {
            auto f = std::make_shared<FixedHorizon>(cold ? r.uni(ns.dt, T0) : r.uni(1, 25) * ns.dt, r.coin());
            fixed = f.get(); keep = f;
            mpc.setTimeHorizonStrategy(f); if (twin) twin->setTimeHorizonStrategy(f);
        }
        // ------------- preparation
        t += r.coin(0.2) ? 0.0 : r.coin(0.1) ? r.uni(0, 3) : r.uni(0, 3 * ns.dt);
        double w0 = 0;
        double start, stop;
        calls = sh->n;
        mpc.prepareIteration(t);
        if (twin) twin->prepareIteration(t);
        if (custom) c.check("custom-handler-used", sh->n == calls + 1);
        double Tn = spy.T.back();
        (void)w0;
        if (ext)
        {
            start = first ? 0 : t - tL;
            stop = first ? 0 : start + 1e-6 * (s.fixedDelayUs_ + s.additionalDelayUs_);
            start = std::min(start, T); stop = std::min(stop, T);
            double Te;
            bool fe = fixed ? (Te = fixed->T, fixed->f) : horizonModel(s, T0, first ? 0 : t - t1, stop, Te);
            c.near("mpc-horizon", Tn, Te, 1e-9);
            c.check("horizon-reached-flag", mpc.timeHorizonReached() == fe || std::fabs(Te - (s.mpc_mode == FIXED_FINAL_TIME_WITH_MIN_TIME_HORIZON ? s.minimumTimeHorizonMpc_ : 0)) < 1e-9);
            if (!fixed && !first && (s.mpc_mode == FIXED_FINAL_TIME || s.mpc_mode == RECEDING_HORIZON_WITH_FIXED_FINAL_TIME) && stop - start > 0)
                c.check("never-ends-after-final-time", Tn == 0 || t + (stop - start) + Tn <= t1 + T0 + 1e-9, mon::str(t + stop - start + Tn - t1 - T0));
        }
        else start = 0, stop = 0;
        T = grid(Tn);
        c.near("solver-horizon", spy.getTimeHorizon(), T, 1e-12);
        int K = ns.computeK(Tn);
        P g = spy.g.back();
        if (cold) c.near("cold-start-guess", g.dist(ip), 0, 0);
        else
        {
            double best = 1e300;
            if (ext) { for (int q : drops(stop, last.u.size(), ns.dt)) best = std::min(best, g.dist(last.shifted(q, K))); }
            else for (int q = 0; q < (int)last.u.size(); ++q) best = std::min(best, g.dist(last.shifted(q, K)));
            c.near("warm-start", best, 0, 1e-9);
            g.checkGrid(c, ns.dt);
        }
        // ------------- solve
        double ta = t + (r.coin(0.5) ? 0.0 : r.uni(0, 4 * ns.dt));
        x = r.mat<2, 1>(-0.5, 0.5);
        spy.fail = !twin && r.coin(0.08);
        std::shared_ptr<Lawf> law;
        if (r.coin(0.3)) { law = std::make_shared<Lawf>(); law->K = r.mat<1, 2>(-1, 1); law->a = r.uni(-1, 1); }
        Pol np; double ts = -1e9;
        int f0 = spy.fin;
        timeval v0, v1;
        gettimeofday(&v0, nullptr);
        bool ok = mpc.finishIteration(x, ta, np, ts, law);
        gettimeofday(&v1, nullptr);
        double wall = (v1.tv_sec - v0.tv_sec) + 1e-6 * (v1.tv_usec - v0.tv_usec);
        c.check("one-solve-per-cycle", spy.fin == f0 + 1);
        c.check("success-reported", ok == !spy.fail);
        P n(np);
        if (twin)
        {
            Pol tp; double tts = -1;
            twin->finishIteration(x, ta, tp, tts, law);
            c.near("twin-policy", P(tp).dist(n), 0, 1e-12);
            c.near("twin-time-stamp", tts, ts, 1e-12);
            c.near("twin-horizon", twin->getSolver().getTimeHorizon(), T, 1e-12);
        }
        if (ext)
        {
            X xs = x;
            if (!first && s.stateForwardIntegration_)
            {
                Pol prev(lastPol);
                double h = s.stateForwardIntegration_dt_, ss = start;
                int steps = std::max(0, (int)std::lround((stop - start) / h));
                auto f = [&](const X& y, double tt) {
                    ct::core::ControlVector<1> u; ct::core::StateVector<2> yy; yy = y;
                    if (law) law->computeControl(yy, tt, u); else prev.computeControl(yy, tt, u);
                    return X(model.f(y, U(u), tt));
                };
                for (int j = 0; j < steps; ++j, ss += h) xs = s.stateForwardIntegratorType_ == ct::core::IntegrationType::EULER ? eulerStep(f, xs, ss, h) : rk4Step(f, xs, ss, h);
            }
            if (!xs.allFinite() || xs.norm() > 50) throw mon::Skip();
            // the zero-order hold of the previous inputs is discontinuous: a tick on a grid point may see either neighbour
            double jump = 0; for (size_t j = 1; j < last.u.size(); ++j) jump = std::max(jump, (last.u[j] - last.u[j - 1]).norm() + 3 * (last.K[j] - last.K[j - 1]).norm());
            bool aligned = false;
            if (!law && !first) for (double tt = start; tt < stop + 1e-9; tt += s.stateForwardIntegration_dt_ / 2) { double q = tt / ns.dt; aligned = aligned || std::fabs(q - std::round(q)) < 1e-7; }
            c.nearm("initial-state", spy.x0.back(), xs, aligned ? 1e-6 + s.stateForwardIntegration_dt_ * jump * 3 : 1e-8);
        }
        double shiftTime = ext ? stop - start : -1;
        if (!ok) c.near("failed-keeps-warm-start", n.dist(g), 0, 0);
        else
        {
            P sol(spy.getSolution());
            c.check("solution-length", (int)sol.u.size() == K && (int)sol.x.size() == K + 1);
            if (!cold || K <= (int)ip.u.size()) c.nearm("solution-starts-at-initial-state", sol.x[0], spy.x0.back(), 1e-9);
            std::vector<int> cand{0};
            double dtp = ta - tL;
            if (ext && s.postTruncation_ && !first && dtp > stop && !cold) cand = drops(dtp - stop, sol.u.size(), ns.dt);
            if (!ext && s.postTruncation_ && !first && !cold) { cand.clear(); for (size_t q = 0; q < sol.u.size(); ++q) cand.push_back(q); }
            double best = 1e300; int bq = 0;
            for (int q : cand) { double v = n.dist(sol.shifted(q, 0)); if (ext) v += std::fabs(ts - ta - shiftTime - q * ns.dt) / 10; if (v < best) { best = v; bq = q; } }
            c.near("returned-policy", best, 0, 1e-8);
            if (ext) c.near("policy-time-stamp", ts, ta + shiftTime + bq * ns.dt, 1e-9);
            else
            {
                double lo = ta, hi = ta + 1e-5, D = 1e-6 * s.additionalDelayUs_ + (s.measureDelay_ ? 0 : 1e-6 * s.fixedDelayUs_);
                if (first) { if (s.measureDelay_) hi += wall; }
                else { lo += bq * ns.dt; hi += bq * ns.dt + D + (s.measureDelay_ ? 1e9 : 0); }
                c.check("policy-time-stamp-internal", ts >= lo - 1e-9 && ts <= hi + 1e-9, "stamp - state stamp " + mon::str(ts - ta) + " wall " + mon::str(wall));
                c.nontrivial = true;
            }
            n.checkGrid(c, ns.dt);
        }
        last = n; lastPol = np;
        tL = ta;
        if (first) { t1 = ta; first = false; }
        double q = ta + r.uni(0, 1);
        if (ext) c.near("since-first-solve", mpc.timeSinceFirstSuccessfulSolve(q), q - t1, 1e-9);
        else { double v = mpc.timeSinceFirstSuccessfulSolve(q); c.check("since-first-solve-internal", v >= 0 && v < 1000, mon::str(v)); }
        t = ta;
        c.sig.d(ts); c.sig.d(Tn);
    }
}
SCENARIO_W(cycle_ext, 4) { cycle(c, true); }
SCENARIO(cycle_int) { cycle(c, false); }
SCENARIO(settings_refused)
{
    mpc_settings s; s.useExternalTiming_ = s.measureDelay_ = true;
    auto& r = c.rng;
    auto model = nl::Model<2, 1>::random(r, 0);
    NLOptConSettings ns = nl::settings(r, 1);
    nl::Problem<2, 1> pr(1.0, X(r.mat<2, 1>()), nl::mkSys<2, 1>(model, ns.dt, nullptr), std::make_shared<nl::Cost<2, 1>>(nl::CostM<2, 1>::random(r, true)), std::make_shared<nl::Lin<2, 1>>(model, ns.dt));
    bool threw = false;
    try { MPC<NLOptConSolver<2, 1>> m(pr, ns, s); } catch (std::exception&) { threw = true; }
    c.check("contradicting-timing-refused", threw);
    MPC<NLOptConSolver<2, 1>> m(pr, ns);
    threw = false;
    try { m.updateSettings(s); } catch (std::exception&) { threw = true; }
    c.check("contradicting-timing-refused-later", threw);
    c.nontrivial = true;
}
MON_MAIN
