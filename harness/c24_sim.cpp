// C24: the closed-loop simulator (two threads) and the kill event, run under ThreadSanitizer / AddressSanitizer with injected delays
#include "sys.hpp"
#include <chrono>
#include <condition_variable>
#include <mutex>
#include <thread>
using namespace ct::core;
using mon::Case;
typedef std::chrono::high_resolution_clock Clk;

static void napUs(double us) { if (us > 0) std::this_thread::sleep_for(std::chrono::duration<double, std::micro>(us)); }

// u = a + b t + K x, identified by id
template <int N, int M>
struct Law : public Controller<N, M>
{
    long id; Eigen::Matrix<double, M, 1> a, b; Eigen::Matrix<double, M, N> K;
    Law(Rng& r, long i) : id(i), a(r.mat<M, 1>(-1, 1)), b(r.mat<M, 1>(-1, 1)), K(r.mat<M, N>(-0.5, 0.5)) {}
    Law(const Law& o) : Controller<N, M>(o), id(o.id), a(o.a), b(o.b), K(o.K) {}
    Law* clone() const override { return new Law(*this); }
    void computeControl(const StateVector<N>& x, const double& t, ControlVector<M>& u) override { u = a + b * t + K * x; }
    Eigen::Matrix<double, M, 1> at(const Eigen::Matrix<double, N, 1>& x, double t) const { return a + b * t + K * x; }
};

// the simulated plant; may be slow
template <int N, int M>
struct Plant : public ControlledSystem<N, M>
{
    static const size_t STATE_DIM = N;
    static const size_t CONTROL_DIM = M;
    typedef double SCALAR;
    Dyn<N, M> d;
    std::vector<double> naps;        // microseconds slept at the i-th evaluation
    std::atomic<long>* evals;
    long ev = 0;
    Plant(const Dyn<N, M>& dd, std::shared_ptr<Controller<N, M>> c, std::atomic<long>* e) : ControlledSystem<N, M>(c), d(dd), evals(e) {}
    Plant(const Plant& o) : ControlledSystem<N, M>(o), d(o.d), naps(o.naps), evals(o.evals), ev(0) {}
    Plant* clone() const override { return new Plant(*this); }
    void computeControlledDynamics(const StateVector<N>& x, const double& t, const ControlVector<M>& u, StateVector<N>& dx) override
    {
        if ((size_t)ev < naps.size()) napUs(naps[ev]);
        ++ev;
        ++*evals;
        dx = d.fd(x, u, t);
    }
};

struct Tick { double t, wall; Eigen::VectorXd x; long law; bool stopSeen; };
struct CTick { double tPrep, tFin, w0, w1, w2, w3; Eigen::VectorXd x; long kLo, kHi; bool stopSeen; };

template <int N, int M>
struct Sim : public ControlSimulator<Plant<N, M>>
{
    typedef ControlSimulator<Plant<N, M>> Base;
    bool update = false;             // exchange the controller from the control thread
    std::atomic<bool> stopped;       // set after stop() has returned
    std::atomic<long> ticks;         // number of finished system iterations
    std::vector<Tick> log;
    std::vector<CTick> clog;
    std::vector<std::shared_ptr<Law<N, M>>> laws;
    mon::Rng rs, rc;
    double napS = 0, napC = 0;
    long stopAtTick = -1, stopAtCtl = -1;
    double prep = 0, p0 = 0, p1 = 0;
    bool pstop = false;
    long pticks = 0;
    std::function<void()> doStop;
    Sim(double sdt, double cdt, const StateVector<N>& x0, std::shared_ptr<Plant<N, M>> s, uint64_t seed)
        : Base(sdt, cdt, x0, s), stopped(false), ticks(0), rs(seed), rc(seed + 7) {}
    Sim(const Sim& o) : Base(o), stopped(false), ticks(0), update(o.update), laws(o.laws), rs(o.rs), rc(o.rc), napS(o.napS), napC(o.napC) {}
    std::shared_ptr<Controller<N, M>> controller_of() { return this->controller_; }
    void restart()
    {
        if (!update) return;
        laws.resize(1);
        this->controller_ = std::shared_ptr<Controller<N, M>>(laws[0]->clone());
        this->system_->setController(this->controller_);
    }
    double wall() const { return std::chrono::duration<double>(Clk::now() - this->sim_start_time_).count(); }
    void finishSystemIteration(Time t) override
    {
        Tick k;
        k.stopSeen = stopped.load();
        k.wall = wall();
        k.t = t;
        k.x = this->x_;
        if (napS > 0 && rs.coin(0.3)) napUs(rs.uni(0, napS));
        if (update)
        {
            this->control_mtx_.lock();
            this->system_->setController(this->controller_);
            k.law = std::static_pointer_cast<Law<N, M>>(this->controller_)->id;
            this->control_mtx_.unlock();
        }
        else
            k.law = 0;
        log.push_back(k);
        ++ticks;
        if ((long)log.size() == stopAtTick) doStop();
    }
    void prepareControllerIteration(Time t) override
    {
        pstop = stopped.load();
        p0 = wall();
        prep = t;
        pticks = ticks.load();
        if (napC > 0 && rc.coin(0.5)) napUs(rc.uni(0, napC));
        p1 = wall();
    }
    void finishControllerIteration(Time t) override
    {
        CTick k;
        k.w2 = wall();
        k.tPrep = prep; k.tFin = t; k.w0 = p0; k.w1 = p1; k.stopSeen = pstop;
        k.kLo = ticks.load();
        this->state_mtx_.lock();
        k.x = this->x_;
        this->state_mtx_.unlock();
        k.w3 = wall();
        k.kHi = ticks.load();
        if (clog.size() < 3000) clog.push_back(k);
        else napUs(100);
        if (update)
        {
            auto l = std::make_shared<Law<N, M>>(rc, (long)laws.size());
            this->control_mtx_.lock();
            laws.push_back(l);
            this->controller_ = l;
            this->control_mtx_.unlock();
        }
        if ((long)clog.size() == stopAtCtl) doStop();
        if (napC <= 0) std::this_thread::yield();
        else napUs(rc.uni(0, napC));
    }
};

static IntegrationType types[] = {EULERCT, RK4CT, EULER, RK4};

// one simulate()..finish() round; judges the recorded history
template <int N, int M>
void judge(Case& c, Sim<N, M>& s, const Dyn<N, M>& d, const Eigen::Matrix<double, N, 1>& x0, double sdt, double cdt, double duration, bool rk4, double elapsed)
{
    auto f = [&](const Eigen::Matrix<double, N, 1>& x, double t, const Law<N, M>& l) { return Eigen::Matrix<double, N, 1>(d.fd(x, l.at(x, t), t)); };
    auto step = [&](Eigen::Matrix<double, N, 1> x, double t, double h, const Law<N, M>& l) {
        Eigen::Matrix<double, N, 1> k1 = f(x, t, l);
        if (!rk4) return Eigen::Matrix<double, N, 1>(x + h * k1);
        Eigen::Matrix<double, N, 1> k2 = f(x + h / 2 * k1, t + h / 2, l), k3 = f(x + h / 2 * k2, t + h / 2, l), k4 = f(x + h * k3, t + h, l);
        return Eigen::Matrix<double, N, 1>(x + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4));
    };
    int n = (int)std::floor(cdt / sdt + 1e-9);
    double res = cdt - n * sdt;
    Eigen::Matrix<double, N, 1> x = x0;
    std::vector<Eigen::VectorXd> states(1, x0);
    long law = 0;
    double t = 0;
    bool over = false, stopOver = false;
    for (size_t k = 0; k < s.log.size(); ++k)
    {
        const Tick& e = s.log[k];
        c.check("runs-past-duration", !over, "iteration began after the duration had passed");
        c.check("runs-after-stop", !stopOver, "iteration began after stop() returned");
        c.near("sim-time", e.t, (k + 1) * cdt, 1e-6 * cdt + 2e-9 * (k + 1));
        c.check("ahead-of-clock", e.wall >= e.t - 1e-6, "simulated time ahead of the clock");
        for (int i = 0; i < n; ++i) x = step(x, t + i * sdt, sdt, *s.laws[law]);
        if (res > 1e-6 * sdt) x = step(x, t + n * sdt, res, *s.laws[law]);
        c.nearm("state", e.x, x, 1e-6);
        if (!c.seen.empty()) return;
        x = e.x;
        states.push_back(x);
        t = (k + 1) * cdt;
        law = e.law;
        c.sig.i(e.law);
        over = e.wall >= duration;
        stopOver = e.stopSeen;
    }
    if (s.log.empty())
        c.check("nothing-simulated", s.stopped.load() || elapsed >= duration, "no iteration although neither stopped nor out of time");
    c.check("ended-early", s.stopped.load() || elapsed >= duration - 1e-6, "finish() returned before the duration without stop()");
    long prev = 0;
    for (size_t k = 0; k < s.clog.size(); ++k)
    {
        const CTick& e = s.clog[k];
        if (k > 0)
        {
            const CTick& q = s.clog[k - 1];
            c.check("control-runs-after-duration", q.w3 < duration, "control iteration began after the duration had passed");
            c.check("control-runs-after-stop", !q.stopSeen, "control iteration began after stop() returned");
            c.check("control-time-order", e.tPrep >= q.w3 - 1e-9 && e.tPrep <= e.w0 + 1e-9, "time handed to prepareControllerIteration is not the elapsed time");
        }
        c.check("control-time", e.tFin >= e.w1 - 1e-9 && e.tFin <= e.w2 + 1e-9 && e.tPrep <= e.w0 + 1e-9 && e.tPrep >= 0, "time handed to the control iteration is not the elapsed time");
        // the state seen is one published state, between the iterations finished before and (at most one more than) after the read
        long at = -1;
        for (long j = std::max(e.kLo, 0l); j <= std::min<long>(e.kHi + 1, states.size() - 1); ++j)
            if ((states[j] - e.x).cwiseAbs().maxCoeff() == 0) { at = j; break; }
        c.check("measured-state", at >= 0, "state read under the lock is none of the states published at that time");
        if (at >= 0)
        {
            c.check("state-order", at >= prev);
            c.check("future-state", e.w3 >= at * cdt - 1e-6, "state of the future handed to the control thread");
            prev = at;
        }
        if (!c.seen.empty()) return;
    }
    c.sig.i(s.clog.size());
    c.sig.i(s.log.size());
    c.sig.i(prev);
}

template <int N, int M>
void simulate(Case& c)
{
    mon::Rng& r = c.rng;
    Dyn<N, M> d = Dyn<N, M>::random(r);
    double sdt = r.uni(0.2e-3, 1.5e-3);
    int ratio = r.in(1, 5);
    double cdt = sdt * ratio;
    bool frac = r.coin(0.4);
    if (frac)
    {
        double f = r.coin(0.5) ? r.uni(0.1, 0.9) : r.coin() ? r.uni(0.02, 0.1) : 1 - r.uni(0.02, 0.1);
        cdt = sdt * (ratio + f);
    }
    int ty = r.in(0, 3);
    std::atomic<long> evals(0);
    mon::Rng lr(r.next());
    auto law0 = std::make_shared<Law<N, M>>(lr, 0);
    auto sys = std::make_shared<Plant<N, M>>(d, law0, &evals);
    StateVector<N> x0; x0 = r.mat<N, 1>(-1, 1);
    std::unique_ptr<Sim<N, M>> s(new Sim<N, M>(sdt, cdt, x0, sys, r.next()));
    s->update = r.coin(0.6);
    s->laws.push_back(law0);
    int slow = r.in(0, 3);
    if (slow == 1) { int k = r.in(1, 20); sys->naps.assign(k, 0); sys->naps[k - 1] = r.uni(1000, 9000); }
    if (slow == 2) for (int i = 0; i < 60; ++i) sys->naps.push_back(r.coin(0.2) ? r.uni(0, 2500) : 0);
    if (r.coin(0.4)) s->napS = r.uni(100, 3000);
    if (r.coin(0.6)) s->napC = r.uni(50, 3000);
    int rounds = r.in(1, 3);
    c.cfg = "N" + mon::str(N) + " sim_dt " + mon::str(sdt) + " control_dt " + mon::str(cdt) + " type " + mon::str(ty) + (s->update ? " exchange" : "") + " slow " + mon::str(slow) + " rounds " + mon::str(rounds);
    if (r.coin(0.25))
    {
        // a copy is self-contained
        std::unique_ptr<Sim<N, M>> cp(new Sim<N, M>(*s));
        c.check("copy-controller", cp->controller_of() != s->controller_of());
        s = std::move(cp);
        sys.reset();
        c.cfg += " copy";
    }
    for (int q = 0; q < rounds; ++q)
    {
        s->log.clear(); s->clog.clear(); s->ticks = 0; s->stopped = false;
        s->stopAtTick = s->stopAtCtl = -1;
        double duration = r.coin(0.1) ? r.uni(0, 1e-3) : r.uni(0.004, 0.03);
        Sim<N, M>* p = s.get();
        p->doStop = [p] { p->stop(); p->stopped = true; };
        int how = r.in(0, 5);
        if (how == 1) s->stopAtTick = r.in(1, 4);
        if (how == 2) s->stopAtCtl = r.in(1, 6);
        if (how >= 1 && how <= 3) duration = r.coin(0.3) ? 30.0 : 0.05;   // ends by request only, or by whichever comes first
        if (r.coin(0.2)) { s->stop(); }                                      // a stop before the start is of no effect
        c.cfg += " | " + mon::str(duration) + " end " + mon::str(how);
        auto b = Clk::now();
        s->restart();
        s->simulate(duration, types[ty]);
        if (how == 3) { napUs(r.uni(0, 8000)); p->doStop(); }
        if (how == 4) napUs(r.uni(0, duration * 2e6));
        s->finish();
        if (how == 5) s->finish();
        double el = std::chrono::duration<double>(Clk::now() - b).count();
        long ev = evals.load();
        napUs(r.uni(0, 300));
        c.check("works-after-finish", ev == evals.load(), "dynamics evaluated after finish() returned");
        judge<N, M>(c, *s, d, x0, sdt, cdt, duration, ty == 1 || ty == 3, el);
        if (!c.seen.empty()) return;
        if (s->log.size()) c.sample(c.cfg + " -> " + mon::str(s->log.size()) + " system and " + mon::str(s->clog.size()) + " control iterations");
    }
}

SCENARIO_W(loop_2_1, 4) { simulate<2, 1>(c); }
SCENARIO_W(loop_3_2, 3) { simulate<3, 2>(c); }
SCENARIO_W(loop_1_1, 2) { simulate<1, 1>(c); }

// without overload the simulation keeps up with the clock, and catches up after one hiccup
SCENARIO(progress)
{
    mon::Rng& r = c.rng;
    Dyn<2, 1> d = Dyn<2, 1>::random(r);
    double sdt = r.uni(0.5e-3, 1e-3), cdt = sdt * r.in(1, 4), duration = 0.03;
    c.cfg = "sim_dt " + mon::str(sdt) + " control_dt " + mon::str(cdt);
    double best = 0;
    for (int a = 0; a < 12 && best < 0.6; ++a)
    {
        std::atomic<long> evals(0);
        mon::Rng lr(1);
        auto law0 = std::make_shared<Law<2, 1>>(lr, 0);
        auto sys = std::make_shared<Plant<2, 1>>(d, law0, &evals);
        if (r.coin()) { int k = r.in(1, 6); sys->naps.assign(k, 0); sys->naps[k - 1] = 5000; }
        StateVector<2> x0; x0 = r.mat<2, 1>(-1, 1);
        Sim<2, 1> s(sdt, cdt, x0, sys, r.next());
        s.laws.push_back(law0);
        s.napC = 500;
        s.simulate(duration * (1 + a));
        s.finish();
        if (s.log.size()) best = std::max(best, s.log.back().t / (duration * (1 + a)));
    }
    c.nontrivial = true;
    c.check("keeps-up", best >= 0.6, "largest simulated share of the duration " + mon::str(best));
    c.sig.d(best);
}

// the plain simulator: destruction waits for the threads; bad step sizes are refused; default construction is harmless
SCENARIO(lifetime)
{
    mon::Rng& r = c.rng;
    Dyn<2, 1> d = Dyn<2, 1>::random(r);
    std::atomic<long> evals(0);
    auto law0 = std::make_shared<Law<2, 1>>(r, 0);
    auto sys = std::make_shared<Plant<2, 1>>(d, law0, &evals);
    StateVector<2> x0; x0 = r.mat<2, 1>(-1, 1);
    { ControlSimulator<Plant<2, 1>> none; ControlSimulator<Plant<2, 1>> cp(none); }
    struct Bad { double s, k; } bad[] = {{0, 0.01}, {-0.001, 0.01}, {0.01, 0}, {0.01, -1}, {0.02, 0.01}, {-0.01, -0.01}};
    const Bad& q = bad[r.in(0, 5)];
    bool threw = false;
    try { ControlSimulator<Plant<2, 1>> s(q.s, q.k, x0, sys); } catch (std::exception&) { threw = true; }
    c.check("bad-steps-refused", threw, mon::str(q.s) + " " + mon::str(q.k));
    double sdt = r.uni(0.3e-3, 1e-3), cdt = sdt * r.in(1, 3), duration = r.uni(0.003, 0.015);
    int mode = r.in(0, 2);
    auto b = Clk::now();
    {
        ControlSimulator<Plant<2, 1>> s(sdt, cdt, x0, sys);
        std::unique_ptr<ControlSimulator<Plant<2, 1>>> cp;
        if (mode == 2) { cp.reset(new ControlSimulator<Plant<2, 1>>(s)); cp->simulate(duration); }
        s.simulate(duration);
        if (mode == 1) { napUs(r.uni(0, duration * 1e6)); s.stop(); }
    }
    double el = std::chrono::duration<double>(Clk::now() - b).count();
    long ev = evals.load();
    napUs(500);
    c.check("works-after-destruction", ev == evals.load());
    c.near("evaluated", ev > 0 || el >= duration || mode == 1, 1, 0);
    if (mode != 1) c.check("destroyed-early", el >= duration - 1e-6);
    c.sig.i(ev);
}

// an integration in another thread is stopped by the kill event, and only by it
SCENARIO(kill)
{
    mon::Rng& r = c.rng;
    Dyn<2, 1> d = Dyn<2, 1>::random(r, 0.7, true);
    d.A = -Eigen::Matrix2d::Identity() * 2;
    std::atomic<long> evals(0);
    auto law0 = std::make_shared<Law<2, 1>>(r, 0);
    law0->b.setZero();
    auto sys = std::make_shared<Plant<2, 1>>(d, law0, &evals);
    auto k = std::make_shared<KillIntegrationEventHandler<2>>();
    std::vector<std::shared_ptr<EventHandler<2>>> hv(1, k);
    Integrator<2>::EventHandlerPtrVector hp;
    hp.push_back(k);
    Integrator<2> in(sys, types[r.in(0, 3)], hp);
    StateVector<2> x0; x0 = r.mat<2, 1>(-1, 1);
    bool killed = false, ended = false;
    std::atomic<bool> asked(false);
    std::thread th([&] {
        StateVector<2> x = x0;
        // one long integration; a request made before it begins is cleared by its start, so the request is made once it runs
        try { in.integrate_n_steps(x, 0.0, 2000000000, 1e-3); } catch (std::exception&) { killed = true; ended = asked.load(); }
    });
    while (evals.load() < 20) std::this_thread::yield();
    napUs(r.uni(0, 4000));
    long before = evals.load();
    asked = true;
    k->setEvent();
    th.join();
    c.sig.i(evals.load() - before);
    c.near("killed", killed && ended, 1, 0);
    k->resetEvent();
    StateVector<2> x = x0;
    bool threw = false;
    try { in.integrate_n_steps(x, 0.0, 5, 1e-3); } catch (std::exception&) { threw = true; }
    c.check("reset", !threw);
}
MON_MAIN
