#include "symsys.hpp"
using namespace mon;
using namespace ct::core;
static const int N = 4, M = 2;
typedef Dyn<N, M> D;
typedef D::X X;
typedef D::U U;
typedef Eigen::Matrix<double, N, N> A_t;
typedef Eigen::Matrix<double, N, M> B_t;
typedef SensitivityApproximationSettings::APPROXIMATION AP;

static D lti(Rng& r)
{
    D d;
    d.A = r.mat<N, N>();
    d.B = r.mat<N, M>();
    if (r.coin(0.4)) { d.A.row(r.in(0, N - 1)).setZero(); }  // singular dynamics
    if (r.coin(0.1)) d.A.setZero();
    return d;
}
// matrix exponential by scaling and Taylor series
static Eigen::MatrixXd expmRef(const Eigen::MatrixXd& m)
{
    Eigen::MatrixXd a = m / 1024.0, r = Eigen::MatrixXd::Identity(m.rows(), m.cols()), t = r;
    for (int k = 1; k < 14; ++k) { t = t * a / k; r += t; }
    for (int k = 0; k < 10; ++k) r = (r * r).eval();
    return r;
}

static void ltiRef(const D& d, int ap, double dt, A_t& wa, B_t& wb)
{
    A_t I = A_t::Identity();
    switch (ap)
    {
        case 0: wa = I + dt * d.A; wb = dt * d.B; break;
        case 1: wa = (I - dt * d.A).inverse(); wb = wa * dt * d.B; break;
        case 2:
        {
            A_t a1 = I, a2 = I;
            a1.topRows<2>() += dt * d.A.topRows<2>();
            a2.bottomRows<2>() += dt * d.A.bottomRows<2>();
            B_t b1 = B_t::Zero(), b2 = B_t::Zero();
            b1.topRows<2>() = dt * d.B.topRows<2>();
            b2.bottomRows<2>() = dt * d.B.bottomRows<2>();
            // velocity row is evaluated at (p_new, v_old)
            wa = a2 * a1; wb = a2 * b1 + b2;
            break;
        }
        case 3: wa = (I - 0.5 * dt * d.A).inverse() * (I + 0.5 * dt * d.A); wb = (I - 0.5 * dt * d.A).inverse() * dt * d.B; break;
        default:
        {
            Eigen::MatrixXd m = Eigen::MatrixXd::Zero(N + M, N + M);
            m.topLeftCorner(N, N) = dt * d.A; m.topRightCorner(N, M) = dt * d.B;
            Eigen::MatrixXd e = expmRef(m);
            wa = e.topLeftCorner(N, N); wb = e.topRightCorner(N, M);
        }
    }
}
SCENARIO_W(approx_lti, 2)
{
    D d = lti(c.rng);
    double dt = c.rng.uni(0.001, 0.2);
    int n = c.rng.in(0, 50);
    int ap = c.rng.in(0, 4);
    auto lin = std::make_shared<DynLin<N, M>>(d);
    SensitivityApproximation<N, M> s(c.rng.coin() ? dt : 1.0, lin, c.rng.coin() ? AP(ap) : AP::FORWARD_EULER);
    s.setApproximation(AP(ap));
    s.setTimeDiscretization(dt);
    std::unique_ptr<SensitivityApproximation<N, M>> cl(s.clone());
    SensitivityApproximation<N, M>& q = c.rng.coin() ? s : *cl;
    StateVector<N> x = c.rng.mat<N, 1>(), xn = c.rng.mat<N, 1>();
    ControlVector<M> u = c.rng.mat<M, 1>();
    StateMatrix<N> A;
    StateControlMatrix<N, M> B;
    for (int k = 0; k < 4; ++k)
    {
        c.cfg = "approx " + str(ap) + " dt=" + str(dt) + " query " + str(k);
        c.sig.i(ap);
        q.getAandB(x, u, xn, n, 1, A, B);
        A_t wa;
        B_t wb;
        ltiRef(d, ap, dt, wa, wb);
        c.nearm("A", A, wa, 1e-9);
        c.nearm("B", B, wb, 1e-9);
        // change one thing and ask again
        switch (c.rng.in(0, 5))
        {
            case 0: dt = c.rng.uni(0.001, 0.2); q.setTimeDiscretization(dt); break;
            case 1: ap = c.rng.in(0, 4); q.setApproximation(AP(ap)); break;
            case 2: dt = c.rng.uni(0.001, 0.2); ap = c.rng.in(0, 4); q.updateSettings(SensitivityApproximationSettings(dt, AP(ap))); break;
            case 3:
                // the system keeps A and gets another B, or the other way round
                if (c.rng.coin()) d.B = c.rng.mat<N, M>(); else d.A = c.rng.mat<N, N>();
                q.setLinearSystem(std::make_shared<DynLin<N, M>>(d));
                break;
            case 4: x = c.rng.mat<N, 1>(); n = c.rng.in(0, 50); break;
            default: break;
        }
    }
}

SCENARIO_W(approx_nonlinear, 2)
{
    // consistency with the derivative of the exact zero-order-hold flow
    D d = D::random(c.rng);
    double dt = c.rng.uni(0.0005, 0.004);
    int n = c.rng.in(0, 1000);
    int ap = c.rng.in(0, 4);
    c.cfg = "approx " + str(ap) + " dt=" + str(dt) + " n=" + str(n);
    c.sig.i(ap);
    SensitivityApproximationSettings st(dt, AP(ap));
    SensitivityApproximation<N, M> s(st, std::make_shared<DynLin<N, M>>(d));
    StateVector<N> x = c.rng.mat<N, 1>();
    ControlVector<M> u = c.rng.mat<M, 1>();
    for (int round = 0; round < 2; ++round)
    {
    // the second query keeps a part of the point
    if (round && c.rng.coin()) x = c.rng.mat<N, 1>();
    if (round && c.rng.coin()) u = c.rng.mat<M, 1>();
    if (round && c.rng.coin()) n = c.rng.in(0, 1000);
    auto flow = [&](const X& x, const U& u) { return fine([&](const X& z, double t) { return d.fd(z, u, t); }, x, n * dt, (n + 1) * dt, 1e-3); };
    StateVector<N> xn = flow(x, u);
    StateMatrix<N> A;
    StateControlMatrix<N, M> B;
    s.getAandB(x, u, xn, n, 1, A, B);
    A_t ja; B_t jb;
    double h = 1e-4;
    for (int j = 0; j < N; ++j) { X a = x, b = x; a(j) += h; b(j) -= h; ja.col(j) = (flow(a, u) - flow(b, u)) / (2 * h); }
    for (int j = 0; j < M; ++j) { U a = u, b = u; a(j) += h; b(j) -= h; jb.col(j) = (flow(x, a) - flow(x, b)) / (2 * h); }
    double tol = 60 * dt * dt;
    c.nearm("A-order", A, ja, tol);
    c.nearm("B-order", B, jb, tol);
    double t = n * dt;
    A_t I = A_t::Identity(), F = d.fx(x, u, t), Fn = d.fx(xn, u, t + dt);
    B_t G = d.fu(x, u, t);
    if (ap == 0) { c.nearm("euler-A", A, I + dt * F, 1e-10); c.nearm("euler-B", B, dt * G, 1e-10); }
    if (ap == 3) c.nearm("tustin-A", A, (I - 0.5 * dt * Fn).inverse() * (I + 0.5 * dt * F), 1e-9);
    if (ap == 4)
    {
        Eigen::MatrixXd m = Eigen::MatrixXd::Zero(N + M, N + M);
        m.topLeftCorner(N, N) = dt * F; m.topRightCorner(N, M) = dt * G;
        Eigen::MatrixXd e = expmRef(m);
        c.nearm("exp-A", A, e.topLeftCorner(N, N), 1e-9);
        c.nearm("exp-B", B, e.topRightCorner(N, M), 1e-9);
    }
    if (ap == 2)
    {
        // derivative of the symplectic Euler map
        auto se = [&](const X& x, const U& u) {
            X y = x; y.head<2>() += dt * d.fd(x, u, t).head<2>();
            X z = y; z.tail<2>() = x.tail<2>() + dt * d.fd(y, u, t).tail<2>();
            return z;
        };
        StateVector<N> xs = se(x, u);
        s.getAandB(x, u, xs, n, 1, A, B);
        for (int j = 0; j < N; ++j) { X a = x, b = x; a(j) += h; b(j) -= h; ja.col(j) = (se(a, u) - se(b, u)) / (2 * h); }
        for (int j = 0; j < M; ++j) { U a = u, b = u; a(j) += h; b(j) -= h; jb.col(j) = (se(x, a) - se(x, b)) / (2 * h); }
        c.nearm("symplectic-A", A, ja, 1e-7);
        c.nearm("symplectic-B", B, jb, 1e-7);
    }
    }
}

static const IntegrationType TY[] = {EULER, EULERCT, RK4, RK4CT};
template <class STEP>
static X stepN(const STEP& st, X x, double t, int k, double h) { for (int i = 0; i < k; ++i) x = st(x, t + i * h, h); return x; }

SCENARIO_W(discretizer, 3)
{
    D d = D::random(c.rng), d2 = D::random(c.rng);
    int ty = c.rng.in(0, 5);
    static const IntegrationType T[] = {EULER, EULERCT, RK4, RK4CT, MODIFIED_MIDPOINT, RK78};
    int K = c.rng.in(1, 5);
    double dt = c.rng.uni(0.005, 0.1);
    int n = c.rng.in(0, 100);
    auto ctl = std::make_shared<TvCtrl<N, M>>(c.rng);
    auto sys = std::make_shared<DynSys<N, M>>(d, ctl);
    typedef SystemDiscretizer<N, M> SDz;
    std::shared_ptr<SDz> z;
    int how = c.rng.in(0, 3);
    c.cfg = "type " + str(int(T[ty])) + " K=" + str(K) + " dt=" + str(dt) + " n=" + str(n) + " how=" + str(how);
    c.sig.i(how * 10 + ty);
    if (how == 0) z.reset(new SDz(sys, dt, T[ty], K));
    else if (how == 1) { z.reset(new SDz(dt, T[ty], K)); z->changeContinuousTimeSystem(sys); }
    else if (how == 2)
    {
        z.reset(new SDz(sys, 0.3, RK4, 2));
        z->setParameters(dt, K);
        z->setIntegrationType(T[ty]);
        z->initialize();
    }
    else
    {
        z.reset(new SDz());
        z->setParameters(dt, K);
        z->setIntegrationType(T[ty]);
        z->changeContinuousTimeSystem(std::make_shared<DynSys<N, M>>(d2));
        z->changeContinuousTimeSystem(sys);
    }
    std::shared_ptr<SDz> cl(z->clone());
    StateVector<N> x, o;
    ControlVector<M> u;
    for (int r = 0; r < 4; ++r)
    {
        SDz& q = c.rng.coin(0.3) ? *cl : *z;
        if (!r || c.rng.coin()) x = c.rng.mat<N, 1>();
        if (!r || c.rng.coin()) u = c.rng.mat<M, 1>();
        if (c.rng.coin(0.3)) n = c.rng.in(0, 100);
        auto f = [&](const X& y, double t) { return d.fd(y, u, t); };
        q.propagateControlledDynamics(x, n, u, o);
        double h = dt / K, t = n * dt, tol = 1e-9;
        X w = x;
        for (int i = 0; i < K; ++i)
        {
            double s = t + i * h;
            if (ty < 2) w = eulerStep(f, w, s, h);
            else if (ty < 4) w = rk4Step(f, w, s, h);
            else if (ty == 4) { double g = h / 2; X x1 = w + g * f(w, s), x2 = w + h * f(x1, s + g); w = 0.5 * (x1 + x2 + g * f(x2, s + h)); }
            else { w = fine(f, w, s, s + h, 1e-3); tol = 1e-8; }
        }
        c.nearm("propagate", o, w, tol);
        c.nearm("substate0", (*q.getSubstates())[0], x, 0);
        if (ty < 2) c.check("substep-count", (int)q.getSubstates()->size() == K, str(q.getSubstates()->size()));
        if (ty == 2 || ty == 3) c.check("substep-count", (int)q.getSubstates()->size() == 4 * K, str(q.getSubstates()->size()));
        for (auto& v : *q.getSubcontrols()) c.nearm("subcontrol", v, u, 0);
    }
    // the user's system keeps its own controller
    std::shared_ptr<Controller<N, M>> g;
    sys->getController(g);
    c.check("system-untouched", g.get() == ctl.get(), "controller of the user's system was replaced");
}
struct DCtl : DiscreteController<N, M>
{
    Eigen::Matrix<double, M, N> K;
    DCtl* clone() const override { return new DCtl(*this); }
    void computeControl(const StateVector<N>& x, const int n, ControlVector<M>& u) override { u = K * x + n * Eigen::Matrix<double, M, 1>::Ones(); }
};
SCENARIO(discrete_closed_loop)
{
    D d = D::random(c.rng);
    double dt = c.rng.uni(0.01, 0.1);
    int n = c.rng.in(0, 5);
    SystemDiscretizer<N, M> z(std::make_shared<DynSys<N, M>>(d), dt, RK4, 1);
    StateVector<N> x = c.rng.mat<N, 1>(), o, w;
    z.propagateDynamics(x, n, o);
    z.propagateControlledDynamics(x, n, ControlVector<M>::Zero(), w);
    c.nearm("zero-input", o, w, 1e-13);
    auto ctl = std::make_shared<DCtl>();
    ctl->K = c.rng.mat<M, N>();
    z.setController(ctl);
    z.propagateDynamics(x, n, o);
    U u = ctl->K * x + n * U::Ones();
    c.nearm("closed-loop", o, rk4Step([&](const X& y, double t) { return d.fd(y, u, t); }, X(x), n * dt, dt), 1e-9);
    // a copy has a controller of its own
    SystemDiscretizer<N, M> y(z);
    ctl->K.setZero();
    StateVector<N> o2;
    y.propagateDynamics(x, n, o2);
    c.nearm("copy-independent", o2, o, 1e-13);
    c.check("getController", z.getController().get() == ctl.get() && y.getController().get() != ctl.get());
}
SCENARIO_W(discretizer_symplectic, 2)
{
    typedef SymDyn<2, M> SD;
    SD d = SD::random(c.rng, c.rng.coin());
    bool rk = c.rng.coin(0.3);
    if (rk) d = SD::random(c.rng, true);
    auto sys = std::make_shared<SymSys<2, M>>(d);
    int K = c.rng.in(1, 4), n = c.rng.in(0, 20);
    double dt = c.rng.uni(0.005, 0.1), h = dt / K;
    SystemDiscretizer<N, M> z0(sys, dt, rk ? RK_SYM : EULER_SYM, K);
    std::unique_ptr<SystemDiscretizer<N, M>> zc(z0.clone());
    SystemDiscretizer<N, M>& z = c.rng.coin() ? z0 : *zc;
    StateVector<N> x = c.rng.mat<N, 1>(), o;
    ControlVector<M> u = c.rng.mat<M, 1>();
    c.cfg = std::string(rk ? "rk" : "euler") + " K=" + str(K) + " dt=" + str(dt);
    z.propagateControlledDynamics(x, n, u, o);
    if (rk)
    {
        auto f = [&](const X& y, double) { X r; r << d.pdot(y.head<2>(), y.tail<2>(), u), d.vdot(y.head<2>(), y.tail<2>(), u); return r; };
        c.nearm("rk", o, fine(f, X(x), 0, dt, 1e-3), 1e-7 + 20 * std::pow(h, 4) * dt);
        return;
    }
    X w = x;
    std::vector<X> subs;
    for (int i = 0; i < K; ++i)
    {
        subs.push_back(w);
        X y = w;
        y.head<2>() += h * d.pdot(w.head<2>(), w.tail<2>(), u);
        y.tail<2>() += h * d.vdot(y.head<2>(), w.tail<2>(), u);
        w = y;
    }
    c.nearm("euler", o, w, 1e-11);
    if (c.check("substeps", (int)z.getSubstates()->size() == K, str(z.getSubstates()->size())))
        for (int i = 0; i < K; ++i)
        {
            c.nearm("substate", (*z.getSubstates())[i], subs[i], 1e-11);
            c.nearm("subcontrol", (*z.getSubcontrols())[i], u, 0);
        }
    // sensitivities of the symplectic map
    typedef std::shared_ptr<StateVectorArray<N>> XP;
    typedef std::shared_ptr<ControlVectorArray<M>> UP;
    std::vector<XP, Eigen::aligned_allocator<XP>> xs(n + 1, z.getSubstates());
    std::vector<UP, Eigen::aligned_allocator<UP>> us(n + 1, z.getSubcontrols());
    auto cc = std::make_shared<ConstantController<N, M>>(u);
    SensitivityIntegrator<N, M> si(h, std::make_shared<SymLin<2, M>>(d), cc, EULER_SYM);
    si.setSubstepTrajectoryReference(&xs, &us);
    StateMatrix<N> A;
    StateControlMatrix<N, M> B;
    si.getAandB(x, u, o, n, K, A, B);
    A_t ja; B_t jb;
    double e = 1e-5;
    for (int j = 0; j < N; ++j)
    {
        StateVector<N> a = x, b = x, oa, ob;
        a(j) += e; b(j) -= e;
        z.propagateControlledDynamics(a, n, u, oa); z.propagateControlledDynamics(b, n, u, ob);
        ja.col(j) = (oa - ob) / (2 * e);
    }
    for (int j = 0; j < M; ++j)
    {
        ControlVector<M> a = u, b = u; StateVector<N> oa, ob;
        a(j) += e; b(j) -= e;
        z.propagateControlledDynamics(x, n, a, oa); z.propagateControlledDynamics(x, n, b, ob);
        jb.col(j) = (oa - ob) / (2 * e);
    }
    c.nearm("sens-A", A, ja, 1e-7);
    c.nearm("sens-B", B, jb, 1e-7);
}
SCENARIO_W(sens_integrator, 3)
{
    bool tv = c.rng.coin(0.8);
    D d = tv ? D::random(c.rng) : lti(c.rng);
    int ty = c.rng.in(0, 3), K = c.rng.in(1, 5), n = c.rng.in(0, 30);
    double dt = c.rng.uni(0.005, 0.1), h = dt / K;
    c.cfg = "type " + str(int(TY[ty])) + " K=" + str(K) + " dt=" + str(dt) + " n=" + str(n) + " tv=" + str(tv);
    c.sig.i(ty);
    auto sys = std::make_shared<DynSys<N, M>>(d);
    SystemDiscretizer<N, M> z(sys, dt, TY[ty], K);
    StateVector<N> x = c.rng.mat<N, 1>(), o;
    ControlVector<M> u = c.rng.mat<M, 1>();
    z.propagateControlledDynamics(x, n, u, o);
    typedef std::shared_ptr<StateVectorArray<N>> XP;
    typedef std::shared_ptr<ControlVectorArray<M>> UP;
    std::vector<XP, Eigen::aligned_allocator<XP>> xs(31);
    std::vector<UP, Eigen::aligned_allocator<UP>> us(31);
    xs[n] = z.getSubstates(); us[n] = z.getSubcontrols();
    auto cc = std::make_shared<ConstantController<N, M>>(u);
    SensitivityIntegrator<N, M> si(c.rng.coin() ? h : 0.7, std::make_shared<DynLin<N, M>>(D()), cc, c.rng.coin() ? TY[ty] : EULERCT, tv);
    si.setStepper(TY[ty]);
    si.setTimeDiscretization(h);
    si.setLinearSystem(std::make_shared<DynLin<N, M>>(d));
    si.setSubstepTrajectoryReference(&xs, &us);
    StateMatrix<N> A;
    StateControlMatrix<N, M> B;
    for (int r = 0; r < 3; ++r)
    {
        si.getAandB(x, u, o, n, K, A, B);
        A_t ja; B_t jb;
        double e = 1e-5;
        auto f = [&](const X& y, const U& v, double t) { return d.fd(y, v, t); };
        auto map = [&](X y, const U& v) {
            for (int i = 0; i < K; ++i)
            {
                auto g = [&](const X& q, double t) { return f(q, v, t); };
                y = ty < 2 ? eulerStep(g, y, n * dt + i * h, h) : rk4Step(g, y, n * dt + i * h, h);
            }
            return y;
        };
        for (int j = 0; j < N; ++j) { X a = x, b = x; a(j) += e; b(j) -= e; ja.col(j) = (map(a, u) - map(b, u)) / (2 * e); }
        for (int j = 0; j < M; ++j) { U a = u, b = u; a(j) += e; b(j) -= e; jb.col(j) = (map(x, a) - map(x, b)) / (2 * e); }
        c.nearm("A", A, ja, 1e-7);
        c.nearm("B", B, jb, 1e-7);
        // another point, index, system or control for the next query; everything else stays
        switch (c.rng.in(0, 4))
        {
            case 0: x = c.rng.mat<N, 1>(); break;
            case 1: u = c.rng.mat<M, 1>(); break;
            case 2: n = c.rng.in(0, 30); break;
            case 3:
                if (tv) d.w = c.rng.mat<N, 1>(); else { if (c.rng.coin()) d.B = c.rng.mat<N, M>(); else d.A = c.rng.mat<N, N>(); }
                sys = std::make_shared<DynSys<N, M>>(d);
                z.changeContinuousTimeSystem(sys);
                si.setLinearSystem(std::make_shared<DynLin<N, M>>(d));
                break;
            default: break;
        }
        z.propagateControlledDynamics(x, n, u, o);
        xs[n] = z.getSubstates(); us[n] = z.getSubcontrols();
    }
    bool thrown = false;
    try { si.setStepper(ODE45); } catch (std::runtime_error&) { thrown = true; }
    c.check("unsupported-stepper", thrown);
}
MON_MAIN
