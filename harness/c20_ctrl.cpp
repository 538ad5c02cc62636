// C20: control laws
#include "mon.hpp"
#include <ct/core/core.h>
using namespace ct::core;
using mon::Case;

template <size_t N, size_t M>
void feedback(Case& c)
{
    mon::Rng& r = c.rng;
    typedef StateFeedbackController<N, M> Ctl;
    std::vector<Eigen::VectorXd> xr, uf;
    std::vector<Eigen::MatrixXd> K;
    std::vector<double> t;
    InterpolationType ty = r.coin() ? ZOH : LIN;
    int n = r.in(1, 12);
    double dt = r.uni(0.01, 0.5), t0 = r.uni(-2, 2);
    StateVectorArray<N> X; ControlVectorArray<M> U; FeedbackArray<N, M> KK;
    auto gen = [&](int nx, int nu) {
        X.clear(); U.clear(); KK.clear(); xr.clear(); uf.clear(); K.clear();
        for (int i = 0; i < nx; ++i) { StateVector<N> x; x = r.mat<N, 1>(-3, 3); X.push_back(x); xr.push_back(x); }
        for (int i = 0; i < nu; ++i)
        {
            ControlVector<M> u; u = r.mat<M, 1>(-3, 3); U.push_back(u); uf.push_back(u);
            FeedbackMatrix<N, M> k; k = r.mat<M, N>(-3, 3); KK.push_back(k); K.push_back(k);
        }
    };
    gen(n, n);
    std::vector<double> tx, tu;
    for (int i = 0; i < n; ++i) { tx.push_back(t0 + i * dt); tu.push_back(t0 + i * dt); }
    std::unique_ptr<Ctl> ctl(new Ctl(X, U, KK, dt, t0, ty));
    c.cfg = "N " + mon::str(N) + " M " + mon::str(M) + " n " + mon::str(n) + " type " + mon::str(int(ty));
    auto interp = [&](const std::vector<double>& ts, auto& d, double q) -> Eigen::MatrixXd {
        size_t m = ts.size();
        if (m == 1 || q < ts[0]) return d[0];
        size_t i = 0; while (i + 1 < m && ts[i + 1] <= q) ++i;
        if (i == m - 1) return d[m - 1];
        if (ty == ZOH) return d[i];
        double a = (q - ts[i]) / (ts[i + 1] - ts[i]);
        return (1 - a) * d[i] + a * d[i + 1];
    };
    int steps = r.in(5, 25);
    for (int s = 0; s < steps; ++s)
    {
        int op = r.in(0, 9);
        if (op == 0)
        {
            // new policy on a new (possibly non-uniform) grid: n+1 reference states, n inputs and gains
            n = r.in(1, 12);
            gen(n + 1, n);
            tx.clear();
            double q = r.uni(-2, 2);
            for (int i = 0; i <= n; ++i) { tx.push_back(q); q += r.uni(0.01, 0.5); }
            tu.assign(tx.begin(), tx.end() - 1);
            TimeArray ta(tx);
            ctl->update(X, U, KK, ta);
            c.check("time", ctl->time().size() == tx.size());
        }
        else if (op == 1) { ctl.reset(ctl->clone()); }
        else if (op == 2)
        {
            // a refused update leaves the law as it was
            TimeArray ta(0.1, n + 5, 0.0);
            bool threw = false;
            try { ctl->update(X, U, KK, ta); } catch (std::exception&) { threw = true; }
            c.check("mismatched-update-refused", threw);
        }
        else if (op == 3)
        {
            StateVector<N> x; x = r.mat<N, 1>(-4, 4);
            int k = r.in(0, (int)uf.size() - 1);
            ControlVector<M> u;
            ctl->computeControl(x, k, u);
            c.nearm("law-index", u, uf[k] + K[k] * (x - xr[k]), 1e-11);
        }
        else if (op == 4)
        {
            StateTrajectory<N> xt; ControlTrajectory<M> ut;
            int m = r.in(1, (int)uf.size());
            std::vector<Eigen::VectorXd> xs;
            for (int i = 0; i < m + 1; ++i) { StateVector<N> x; x = r.mat<N, 1>(-4, 4); xs.push_back(x); xt.push_back(x, 0.1 * i + 0.3, true); }
            if (r.coin()) { ControlVector<M> u; u.setOnes(); ut.push_back(u, 0.0, true); }
            ctl->extractControlTrajectory(xt, ut);
            if (c.check("extract-size", (int)ut.size() == m))
                for (int i = 0; i < m; ++i)
                {
                    c.nearm("extract", ut[i], uf[i] + K[i] * (xs[i] - xr[i]), 1e-11);
                    c.near("extract-time", ut.getTimeFromIndex(i), 0.1 * i + 0.3, 1e-12);
                }
        }
        else
        {
            double q = r.coin(0.2) ? tu[r.in(0, tu.size() - 1)] : r.uni(tx.front() - 0.5, tx.back() + 0.5);
            bool near = false;
            for (double y : tx) if (std::abs(y - q) < 1e-9) near = true;
            if (near && ty == ZOH) continue;
            StateVector<N> x; x = r.mat<N, 1>(-4, 4);
            ControlVector<M> u;
            ctl->computeControl(x, q, u);
            c.nearm("law-time", u, Eigen::VectorXd(interp(tu, uf, q) + interp(tu, K, q) * (x - interp(tx, xr, q))), 1e-8);
        }
        c.check("accessors", ctl->x_ref().size() == xr.size() && ctl->uff().size() == uf.size() && ctl->K().size() == K.size());
        for (size_t i = 0; i < xr.size() && i < ctl->x_ref().size(); ++i) c.nearm("x_ref", ctl->x_ref()[i], xr[i], 0);
        for (size_t i = 0; i < uf.size() && i < ctl->uff().size(); ++i) { c.nearm("uff", ctl->uff()[i], uf[i], 0); c.nearm("K", ctl->K()[i], K[i], 0); }
    }
}
SCENARIO_W(state_feedback, 3) { feedback<3, 2>(c); }
SCENARIO(state_feedback11) { feedback<1, 1>(c); }
SCENARIO(state_feedback25) { feedback<2, 5>(c); }

SCENARIO_W(pid, 4)
{
    mon::Rng& r = c.rng;
    typedef PIDController<double> P;
    auto par = [&] {
        P::parameters_t p(r.uni(-3, 5), r.uni(0, 5), r.uni(0, 1), r.uni(0.001, 0.2));
        if (r.coin()) p.Imax = r.uni(0.01, 2);
        if (r.coin()) { p.uMax = r.uni(0.1, 5); p.uMin = -r.uni(0.1, 5); }
        if (r.coin(0.1)) p.uMax = p.uMin + 0.01;
        return p;
    };
    P::parameters_t p = par();
    double xd = r.uni(-2, 2), xdd = r.uni(-1, 1);
    std::unique_ptr<P> ctl(new P(p, P::setpoint_t(xd, xdd)));
    double I = 0, prev = 0, t = r.uni(0, 2);
    std::string tr;
    int n = r.in(20, 100);
    for (int k = 0; k < n; ++k)
    {
        int op = r.in(0, 14);
        tr += char('a' + op);
        c.cfg = "ops " + tr;
        if (op == 0) { ctl->reset(); I = 0; prev = 0; }
        else if (op == 1) { p = par(); ctl->changeParameters(p); }
        else if (op == 2) { xd = r.uni(-2, 2); ctl->setDesiredState(xd); }
        else if (op == 3) { xd = r.uni(-2, 2); xdd = r.uni(-1, 1); ctl->setDesiredState(xd, xdd); }
        else if (op == 4) { prev = r.uni(-2, 2); ctl->setInitialState(prev); }
        else if (op == 5) { ctl.reset(ctl->clone()); }
        else if (op == 6) { p.k_i = r.uni(0, 3); ctl->Parameters().k_i = p.k_i; }
        else
        {
            double x = r.uni(-3, 3), xdot = r.uni(-3, 3);
            bool meas = r.coin();
            double got = meas ? ctl->computeControl(x, xdot, t) : ctl->computeControl(x, t);
            double e = xd - x;
            I += p.k_i * e * p.dt;
            I = std::max(-p.Imax, std::min(p.Imax, I));
            double u = p.k_p * e + I + p.k_d * (xdd - (meas ? xdot : (x - prev) / p.dt));
            u = std::min(u, p.uMax);
            u = std::max(u, p.uMin);
            prev = x;
            c.near(meas ? "law-measured-derivative" : "law", got, u, 1e-9);
            c.check("saturation", got <= p.uMax && got >= p.uMin);
            t += p.dt;
        }
    }
}
SCENARIO(constant)
{
    mon::Rng& r = c.rng;
    ControlVector<3> u; u = r.mat<3, 1>();
    std::unique_ptr<ConstantController<2, 3>> k;
    if (r.coin()) { k.reset(new ConstantController<2, 3>(u)); }
    else { k.reset(new ConstantController<2, 3>()); u.setZero(); }
    for (int i = 0; i < 10; ++i)
    {
        StateVector<2> x; x = r.mat<2, 1>();
        ControlVector<3> o; o.setConstant(7);
        k->computeControl(x, r.uni(-5, 5), o);
        c.nearm("time", o, u, 0);
        o.setConstant(9);
        k->computeControl(x, r.in(-5, 5), o);
        c.nearm("index", o, u, 0);
        c.nearm("get", k->getControl(), u, 0);
        c.nearm("derivative", k->getDerivativeU0(x, 0.0), Eigen::Matrix3d::Identity(), 0);
        if (r.coin()) { u = r.mat<3, 1>(); k->setControl(u); }
        if (r.coin()) k.reset(k->clone());
    }
}
SCENARIO(constant_feedback)
{
    mon::Rng& r = c.rng;
    typedef ConstantStateFeedbackController<4, 2> C;
    ControlVector<2> u; u = r.mat<2, 1>(); StateVector<4> xr; xr = r.mat<4, 1>(); FeedbackMatrix<4, 2> K; K = r.mat<2, 4>();
    std::unique_ptr<C> k;
    if (r.coin()) k.reset(new C(u, xr, K)); else { k.reset(new C()); u.setZero(); xr.setZero(); K.setZero(); }
    for (int i = 0; i < 10; ++i)
    {
        StateVector<4> x; x = r.mat<4, 1>(-3, 3);
        ControlVector<2> o;
        k->computeControl(x, r.uni(-5, 5), o);
        c.nearm("law", o, u + K * (x - xr), 1e-12);
        if (r.coin()) { u = r.mat<2, 1>(); xr = r.mat<4, 1>(); K = r.mat<2, 4>(); k->updateControlLaw(u, xr, K); }
        else if (r.coin(0.3)) { u = r.mat<2, 1>(); xr = r.mat<4, 1>(); K.setZero(); k->updateControlLaw(u, xr); }
        if (r.coin()) k.reset(k->clone());
    }
}
SCENARIO(step_input)
{
    mon::Rng& r = c.rng;
    double g = r.uni(-5, 5), ts = r.uni(-1, 3);
    StepInputController s(StepInputController::Parameters(g, ts));
    std::unique_ptr<StepInputController> cl(s.clone());
    for (int i = 0; i < 20; ++i)
    {
        double t = i == 0 ? ts : r.uni(-3, 5);
        StateVector<1> x; x(0) = r.uni(-1, 1);
        ControlVector<1> u, v;
        s.computeControl(x, t, u);
        cl->computeControl(x, t, v);
        c.near("step", u(0), t >= ts ? g : 0.0, 0);
        c.near("step-clone", v(0), t >= ts ? g : 0.0, 0);
    }
}
SCENARIO(constant_traj)
{
    mon::Rng& r = c.rng;
    ControlVectorArray<2> u; StateVectorArray<3> x;
    int n = r.in(1, 8);
    auto fill = [&] { u.clear(); x.clear(); for (int i = 0; i < n; ++i) { ControlVector<2> a; a = r.mat<2, 1>(); u.push_back(a); StateVector<3> b; b = r.mat<3, 1>(); x.push_back(b); } };
    fill();
    ConstantTrajectoryController<3, 2> k(u, x);
    for (int j = 0; j < 3; ++j)
    {
        std::unique_ptr<ConstantTrajectoryController<3, 2>> cl(k.clone());
        c.check("size", cl->getControlVectorArray().size() == u.size() && cl->getStateVectorArray().size() == x.size());
        for (int i = 0; i < n; ++i) { c.nearm("u", cl->getControlVectorArray()[i], u[i], 0); c.nearm("x", cl->getStateVectorArray()[i], x[i], 0); c.nearm("u0", k.getControlVectorArray()[i], u[i], 0); }
        fill(); k.setControlVectorArray(u); k.setStateVectorArray(x);
    }
}
// closed loop: the controlled system applies the controller currently attached
struct Sys : public ControlledSystem<2, 1>
{
    Sys() {}
    Sys(const Sys& o) : ControlledSystem<2, 1>(o) {}
    Sys* clone() const override { return new Sys(*this); }
    void computeControlledDynamics(const StateVector<2>& x, const double& t, const ControlVector<1>& u, StateVector<2>& d) override { d(0) = x(1); d(1) = -x(0) + t + u(0); }
};
SCENARIO(closed_loop)
{
    mon::Rng& r = c.rng;
    std::shared_ptr<Sys> s(new Sys);
    std::shared_ptr<ConstantStateFeedbackController<2, 1>> k;
    ControlVector<1> u; StateVector<2> xr; FeedbackMatrix<2, 1> K;
    u.setZero(); xr.setZero(); K.setZero();
    for (int i = 0; i < 20; ++i)
    {
        int op = r.in(0, 5);
        if (op == 0 || (op == 1 && !k)) { u = r.mat<1, 1>(); xr = r.mat<2, 1>(); K = r.mat<1, 2>(); k.reset(new ConstantStateFeedbackController<2, 1>(u, xr, K)); s->setController(k); }
        else if (op == 1) { u = r.mat<1, 1>(); xr = r.mat<2, 1>(); K = r.mat<1, 2>(); k->updateControlLaw(u, xr, K); }
        else if (op == 2) { s.reset(s->clone()); std::shared_ptr<Controller<2, 1>> kc; s->getController(kc); c.check("controller-cloned", !k || (kc && kc.get() != k.get())); k = std::dynamic_pointer_cast<ConstantStateFeedbackController<2, 1>>(kc); }
        else if (op == 3 && r.coin(0.3)) { k.reset(); s->setController(nullptr); u.setZero(); xr.setZero(); K.setZero(); }
        StateVector<2> x, d; x = r.mat<2, 1>();
        double t = r.uni(0, 3);
        s->computeDynamics(x, t, d);
        double ue = (u + K * (x - xr))(0);
        c.near("closed-loop-0", d(0), x(1), 1e-13);
        c.near("closed-loop-1", d(1), -x(0) + t + ue, 1e-12);
        c.near("last-control", s->getLastControlAction()(0), ue, 1e-12);
    }
}
MON_MAIN
