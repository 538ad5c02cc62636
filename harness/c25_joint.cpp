// C25: joint-space utilities of ct_rbd that need no external rigid-body library
#include "mon.hpp"
#include <ct/core/core.h>
#include <ct/rbd/state/JointState.h>
#include <ct/rbd/state/JointAcceleration.h>
#include <ct/rbd/common/SingleDOFTrajectoryGenerator.h>
#include <ct/rbd/common/SimpleArmTrajectoryGenerator.h>
#include <ct/rbd/common/math/JacobiSingularity.h>
#include <ct/rbd/robot/actuator/ActuatorDynamics.h>
#include <ct/rbd/robot/actuator/SEADynamicsFirstOrder.h>
#include <ct/rbd/robot/actuator/SEADynamicsFirstOrder-impl.h>
#include <ct/rbd/robot/actuator/SecondOrderActuatorDynamics.h>
#include <ct/rbd/robot/actuator/SecondOrderActuatorDynamics-impl.h>
#include <ct/rbd/robot/control/JointPositionPIDController.h>
#include <ct/rbd/robot/control/JointPositionPIDController-impl.h>
#include <ct/rbd/robot/control/SelectionMatrix.h>
#include <ct/rbd/robot/control/SelectionMatrix-impl.h>
using namespace ct::core;
using namespace ct::rbd;
using mon::Case; using mon::Rng; using mon::str;
static const double PI2 = 2 * 3.14159265358979323846;

template <size_t J>
void limits(Case& c)
{
    Rng& r = c.rng;
    typedef Eigen::Matrix<double, J, 1> V;
    typename JointState<J>::joint_state_vector_t s; s = r.template mat<2 * J, 1>(-10, 10);
    JointState<J> js(s);
    V lo = r.template mat<J, 1>(-8, 0), hi = lo + r.template mat<J, 1>(0, 12);
    double tol = r.coin(0.4) ? 0.0 : r.uni(0, 0.3);
    // put positions at and around the limits
    for (size_t i = 0; i < J; ++i)
    {
        double e = r.coin(0.3) ? 0 : r.uni(-2, 2) * (tol > 0 ? tol : 0.1);
        switch (r.in(0, 5))
        {
            case 0: js.getPosition(i) = lo(i) + e; break;
            case 1: js.getPosition(i) = hi(i) + e; break;
            case 2: js.getPosition(i) = r.uni(lo(i), hi(i)); break;
            case 3: js.getPosition(i) = r.uni(lo(i), hi(i)); break;
            default: js.getPosition(i) = r.coin(0.7) ? 0.5 * (lo(i) + hi(i)) : r.uni(-15, 15);
        }
        if (r.coin(0.3)) js.getVelocity(i) = 0;
    }
    c.cfg = "J" + str(J) + " tol " + str(tol);
    V p = js.getPositions(), v = js.getVelocities();
    {
        bool want = true, edge = false;
        for (size_t i = 0; i < J; ++i)
        {
            if (p(i) < lo(i) - tol || p(i) > hi(i) + tol) want = false;
            if (tol > 0 && (std::fabs(p(i) - lo(i) + tol) < 1e-12 || std::fabs(p(i) - hi(i) - tol) < 1e-12)) edge = true;
        }
        std::vector<double> lov(lo.data(), lo.data() + J), hiv(hi.data(), hi.data() + J);
        if (!edge)
        {
            bool got = r.coin() ? js.checkPositionLimits(lo, hi, tol) : js.checkPositionLimits(lov, hiv, tol);
            c.near("position-limits", got, want, 0);
            if (tol == 0) c.near("position-limits-default", js.checkPositionLimits(lo, hi), want, 0);
        }
    }
    {
        V lim = r.template mat<J, 1>(0, 12);
        for (size_t i = 0; i < J; ++i)
            if (r.coin(0.6)) lim(i) = std::fabs(v(i)) * r.uni(1, 2);
        bool want = true;
        for (size_t i = 0; i < J; ++i) if (std::fabs(v(i)) > lim(i)) want = false;
        c.near("velocity-limits", js.checkVelocityLimits(lim), want, 0);
    }
    c.nearm("unchanged-by-checks", js.getPositions(), p, 0);
    {
        // wrapping
        double wt = r.coin(0.5) ? 0.0 : r.uni(0, 0.5);
        for (size_t i = 0; i < J; ++i)
        {
            double e = r.coin(0.3) ? 0 : r.uni(-1.5, 1.5) * (wt > 0 ? wt : 0.01);
            int k = r.in(-4, 4);
            switch (r.in(0, 3))
            {
                case 0: js.getPosition(i) = lo(i) + k * PI2 + e; break;
                case 1: js.getPosition(i) = r.uni(-100, 100); break;
                case 2: js.getPosition(i) = lo(i) + r.uni(0, PI2); break;
                default: js.getPosition(i) = lo(i) + PI2 + e;
            }
        }
        V q = js.getPositions();
        if (wt == 0 && r.coin()) js.toUniquePosition(lo); else js.toUniquePosition(lo, wt);
        V u = js.getPositions();
        for (size_t i = 0; i < J; ++i)
        {
            c.check("wrap-range", u(i) >= lo(i) - wt - 1e-9 && u(i) <= lo(i) + PI2 + wt + 1e-9, "position " + str(q(i)) + " became " + str(u(i)) + " for lower limit " + str(lo(i)) + " tolerance " + str(wt));
            double k = (q(i) - u(i)) / PI2;
            c.near("wrap-whole-turns", k, std::round(k), 1e-9);
            if (q(i) >= lo(i) - wt && q(i) < lo(i) + PI2 + wt - 1e-9) c.near("wrap-kept", u(i), q(i), 0);
            if (wt == 0 && q(i) > lo(i) + 1e-6 && std::fabs(std::remainder(q(i) - lo(i), PI2)) > 1e-6)
                c.check("wrap-strict", u(i) >= lo(i) && u(i) < lo(i) + PI2);
        }
        c.nearm("wrap-velocities", js.getVelocities(), v, 0);
        c.sig.m(u);
    }
    // arithmetic
    typename JointState<J>::joint_state_vector_t a, b; a = r.template mat<2 * J, 1>(-2, 2); b = r.template mat<2 * J, 1>(-2, 2);
    if (r.coin(0.3)) b = a + r.template mat<2 * J, 1>(0.01, 2);
    if (r.coin(0.2)) b = a;
    JointState<J> A(a), B(b);
    double k = r.uni(0.1, 3);
    c.nearm("add", (A + B).toImplementation(), a + b, 0); c.nearm("sub", (A - B).toImplementation(), a - b, 0);
    c.nearm("mul", (A * k).toImplementation(), a * k, 0); c.nearm("div", (A / k).toImplementation(), a / k, 1e-15);
    bool eq = true, lt = true, gt = true;
    for (size_t i = 0; i < 2 * J; ++i) { if (a(i) != b(i)) eq = false; if (!(a(i) < b(i))) lt = false; if (!(a(i) > b(i))) gt = false; }
    c.near("eq", A == B, eq, 0); c.near("ne", A != B, !eq, 0); c.near("lt", A < B, lt, 0); c.near("gt", A > B, gt, 0);
    JointState<J> Z; c.nearm("zero", Z.toImplementation(), 0 * a, 0);
    for (size_t i = 0; i < J; ++i) { c.near("index-p", A.getPosition(i), a(i), 0); c.near("index-v", A.getVelocity(i), a(J + i), 0); }
}
SCENARIO_W(limits_1, 2) { limits<1>(c); }
SCENARIO_W(limits_3, 3) { limits<3>(c); }
SCENARIO_W(limits_7, 2) { limits<7>(c); }

// rest-to-rest profile: independent closed form
struct Prof
{
    double x0, xT, v, a, T, ta, vp, s;
    Prof(double x0_, double xT_, double v_, double a_) : x0(x0_), xT(xT_), v(v_), a(a_)
    {
        double D = std::fabs(xT - x0);
        s = xT < x0 ? -1 : 1;
        if (D >= v * v / a) { vp = v; ta = v / a; T = D / v + v / a; }
        else { vp = std::sqrt(D * a); ta = vp / a; T = 2 * ta; }
    }
    void at(double t, double& x, double& vel) const
    {
        double q;
        if (t >= T) { x = xT; vel = 0; return; }
        if (t <= ta) { q = 0.5 * a * t * t; vel = a * t; }
        else if (t <= T - ta) { q = 0.5 * vp * ta + vp * (t - ta); vel = vp; }
        else { double w = T - t; q = std::fabs(xT - x0) - 0.5 * a * w * w; vel = a * w; }
        x = x0 + s * q; vel *= s;
    }
};
static void randProf(Rng& r, double& x0, double& xT, double& v, double& a)
{
    x0 = r.uni(-3, 3); xT = r.coin(0.1) ? x0 : x0 + r.uni(-3, 3) * std::pow(10, r.in(-3, 0)); v = r.uni(0.05, 3); a = r.uni(0.1, 10);
    if (r.coin(0.1)) xT = x0 + (r.coin() ? 1 : -1) * v * v / a;   // just reaches the velocity limit
}
SCENARIO_W(profile, 4)
{
    Rng& r = c.rng;
    ct::rbd::SingleDOFTrajectoryGenerator g;
    int n = r.in(1, 4);
    for (int k = 0; k < n; ++k)
    {
        double x0, xT, v, a; randProf(r, x0, xT, v, a);
        c.cfg = "x0 " + str(x0) + " xT " + str(xT) + " v " + str(v) + " a " + str(a);
        Prof p(x0, xT, v, a);
        double T;
        if (k == 0 && r.coin()) { g = ct::rbd::SingleDOFTrajectoryGenerator(x0, xT, v, a); T = p.T; }
        else { T = g.setup(x0, xT, v, a); c.near("duration", T, p.T, 1e-9 * (1 + p.T)); }
        double x, vel;
        for (int i = 0; i < 24; ++i)
        {
            double t = i == 0 ? 0 : i == 1 ? p.T : i == 2 ? p.ta : i == 3 ? p.T - p.ta : i == 4 ? p.T / 2 : r.uni(0, 1.2 * p.T + 0.1);
            t = std::max(t, 0.0);
            double wx, wv; p.at(t, wx, wv);
            g.queryTrajectory(t, x, vel);
            c.near("position", x, wx, 1e-9 * (1 + std::fabs(x0) + std::fabs(xT))); c.near("velocity", vel, wv, 1e-6 * (1 + p.vp));
            c.check("velocity-limit", std::fabs(vel) <= v * (1 + 1e-9));
            c.check("between", (x - x0) * p.s >= -1e-9 && (xT - x) * p.s >= -1e-9);
            // acceleration within the limit
            double h = 1e-4 * (p.T + 1e-3), x2, v2; g.queryTrajectory(t + h, x2, v2);
            c.check("acceleration-limit", std::fabs(v2 - vel) <= a * h * (1 + 1e-6) + 1e-9, "dv " + str(v2 - vel) + " h " + str(h));
        }
        bool threw = false;
        try { g.queryTrajectory(-r.uni(1e-6, 1), x, vel); } catch (std::exception&) { threw = true; }
        c.check("negative-time", threw);
        c.sig.d(T);
    }
}
SCENARIO_W(arm, 3)
{
    Rng& r = c.rng;
    const size_t J = 3;
    typedef Eigen::Matrix<double, J, 1> V;
    V v, a;
    for (size_t i = 0; i < J; ++i) { v(i) = r.uni(0.05, 3); a(i) = r.uni(0.1, 10); }
    SimpleArmTrajectoryGenerator<J> g(v, a);
    for (int k = 0; k < 2; ++k)
    {
        V s = r.mat<J, 1>(-2, 2), e = s + r.mat<J, 1>(-2, 2);
        if (r.coin(0.2)) e(r.in(0, J - 1)) = s(0);
        double dt = r.coin(0.3) ? 0.02 : r.uni(0.005, 0.3);
        if (r.coin(0.05)) e = s;
        std::vector<Prof> p; double T = 0;
        for (size_t i = 0; i < J; ++i) { p.push_back(Prof(s(i), e(i), v(i), a(i))); T = std::max(T, p[i].T); }
        c.cfg = "T " + str(T) + " dt " + str(dt);
        StateTrajectory<2 * J> tr = dt == 0.02 ? g.generateTrajectory(s, e) : g.generateTrajectory(s, e, dt, r.coin());
        c.check("samples", tr.size() >= 1);
        for (size_t n = 0; n < tr.size(); ++n)
        {
            c.near("grid", tr.getTimeFromIndex(n), n * dt, 1e-9);
            for (size_t i = 0; i < J; ++i)
            {
                double x, w; p[i].at(n * dt, x, w);
                c.near("arm-position", tr[n](i), x, 1e-8); c.near("arm-velocity", tr[n](J + i), w, 1e-6);
            }
        }
        double last = (tr.size() - 1) * dt;
        c.check("ends-on-arrival", last >= T - 1e-9 && last < T + 2 * dt + 1e-9, "last sample at " + str(last));
        for (size_t i = 0; i < J; ++i) { c.near("arm-end", tr.back()(i), e(i), 1e-7); c.near("arm-end-rest", tr.back()(J + i), 0, 1e-5); c.near("arm-start", tr.front()(i), s(i), 1e-12); c.near("arm-start-rest", tr.front()(J + i), 0, 1e-12); }
        c.sig.d(T); c.sig.i(tr.size());
    }
}

template <size_t J>
void actuators(Case& c)
{
    Rng& r = c.rng;
    typedef Eigen::Matrix<double, J, 1> V;
    typename JointState<J>::joint_state_vector_t sv; sv = r.template mat<2 * J, 1>(-2, 2);
    JointState<J> js(sv);
    ControlVector<J> u; u = r.template mat<J, 1>(-3, 3);
    {
        double k = r.uni(0.5, 50), g = r.uni(0.5, 20);
        std::unique_ptr<ActuatorDynamics<J, J>> m(new SEADynamicsFirstOrder<J>(k, g));
        if (r.coin()) m.reset(m->clone());
        StateVector<J> x, dx; x = r.template mat<J, 1>(-2, 2); dx.setConstant(7);
        m->computeActuatorDynamics(js, x, r.uni(0, 3), u, dx);
        c.nearm("sea-dynamics", dx, u / g, 1e-14);
        ControlVector<J> o = m->computeControlOutput(js, x);
        c.nearm("sea-output", o, k * (x - js.getPositions()), 1e-13);
        StateVector<J> back = m->computeStateFromOutput(js, u);
        c.nearm("sea-inverse", m->computeControlOutput(js, back), u, 1e-12);
    }
    {
        V w, z, g;
        std::vector<double> wv, zv, gv;
        bool per = r.coin(), dc = r.coin();
        for (size_t i = 0; i < J; ++i)
        {
            w(i) = per || i == 0 ? r.uni(0.5, 10) : w(0); z(i) = per || i == 0 ? r.uni(0, 2) : z(0);
            g(i) = dc ? (per || i == 0 ? r.uni(-3, 3) : g(0)) : 1;
            wv.push_back(w(i)); zv.push_back(z(i)); gv.push_back(g(i));
        }
        std::unique_ptr<ActuatorDynamics<2 * J, J>> m;
        if (per) m.reset(dc ? new SecondOrderActuatorDynamics<J>(wv, zv, gv) : new SecondOrderActuatorDynamics<J>(wv, zv));
        else m.reset(dc ? new SecondOrderActuatorDynamics<J>(w(0), z(0), g(0)) : new SecondOrderActuatorDynamics<J>(w(0), z(0)));
        if (r.coin()) m.reset(m->clone());
        StateVector<2 * J> x, dx; x = r.template mat<2 * J, 1>(-2, 2); dx.setConstant(7);
        m->computeActuatorDynamics(js, x, r.uni(0, 3), u, dx);
        for (size_t i = 0; i < J; ++i)
        {
            c.near("so-rate", dx(i), x(i + J), 0);
            c.near("so-acceleration", dx(i + J), -2 * z(i) * w(i) * x(i + J) - w(i) * w(i) * x(i) + g(i) * w(i) * w(i) * u(i), 1e-9);
        }
        c.nearm("so-output", m->computeControlOutput(js, x), x.template head<J>(), 0);
        StateVector<2 * J> st = m->computeStateFromOutput(js, u);
        c.nearm("so-inverse", m->computeControlOutput(js, st), u, 0);
        if (!dc)
        {
            // unit gain at rest
            m->computeActuatorDynamics(js, st, 0.0, u, dx);
            c.nearm("so-equilibrium", dx, 0 * dx, 1e-9);
        }
        bool threw = false;
        wv.push_back(1);
        try { SecondOrderActuatorDynamics<J> bad(wv, zv); } catch (std::exception&) { threw = true; }
        c.check("so-size", threw);
        c.sig.m(dx);
    }
}
SCENARIO_W(actuators_2, 2) { actuators<2>(c); }
SCENARIO_W(actuators_5, 1) { actuators<5>(c); }

template <size_t J>
void jpid(Case& c)
{
    Rng& r = c.rng;
    typedef JointPositionPIDController<J> Ctl;
    typedef PIDController<double> P;
    typedef Eigen::Matrix<double, J, 1> V;
    auto par = [&] {
        P::parameters_t p(r.uni(-3, 5), r.uni(0, 5), r.uni(0, 1), r.uni(0.001, 0.2));
        if (r.coin()) p.Imax = r.uni(0.01, 2);
        if (r.coin()) { p.uMax = r.uni(0.1, 5); p.uMin = -r.uni(0.1, 5); }
        return p;
    };
    std::vector<P::parameters_t> ps;
    V xd = r.template mat<J, 1>(-2, 2), vd = r.template mat<J, 1>(-1, 1), I = V::Zero();
    std::unique_ptr<Ctl> ctl;
    if (r.coin()) { for (size_t i = 0; i < J; ++i) ps.push_back(par()); ctl.reset(new Ctl(xd, vd, ps)); }
    else { ps.assign(J, par()); ctl.reset(new Ctl(xd, vd, ps[0])); }
    int n = r.in(5, 40);
    double t = 0;
    for (int k = 0; k < n; ++k)
    {
        switch (r.in(0, 9))
        {
            case 0: xd = r.template mat<J, 1>(-2, 2); ctl->setDesiredPosition(xd); break;
            case 1: { int j = r.in(0, J - 1); xd(j) = r.uni(-2, 2); ctl->setDesiredPosition(xd(j), j); break; }
            case 2: { double kp = r.uni(-3, 5), ki = r.uni(0, 5), kd = r.uni(0, 1); ctl->setAllPIDGains(kp, ki, kd); for (auto& p : ps) { p.k_p = kp; p.k_i = ki; p.k_d = kd; } break; }
            case 3: ctl->reset(); I.setZero(); break;
            case 4: ctl.reset(ctl->clone()); break;
            default:
            {
                StateVector<2 * J> x; x = r.template mat<2 * J, 1>(-3, 3);
                ControlVector<J> u; u.setConstant(7);
                ctl->computeControl(x, t, u);
                for (size_t i = 0; i < J; ++i)
                {
                    double e = xd(i) - x(i);
                    I(i) = std::max(-ps[i].Imax, std::min(ps[i].Imax, I(i) + ps[i].k_i * e * ps[i].dt));
                    double w = ps[i].k_p * e + I(i) + ps[i].k_d * (vd(i) - x(J + i));
                    w = std::max(std::min(w, ps[i].uMax), ps[i].uMin);
                    c.near("joint-pid", u(i), w, 1e-9);
                }
                c.sig.m(u);
                t += 0.01;
            }
        }
    }
}
SCENARIO_W(jpid_1, 1) { jpid<1>(c); }
SCENARIO_W(jpid_4, 2) { jpid<4>(c); }

template <size_t R, size_t C>
void singularity(Case& c)
{
    Rng& r = c.rng;
    Eigen::Matrix<double, R, C> Jm = r.template mat<R, C>(-2, 2);
    if (r.coin(0.2)) Jm.row(R - 1) = Jm.row(0) * r.uni(0.5, 2) + r.uni(1e-6, 1e-2) * r.template mat<1, C>(-1, 1);
    JacobiSingularity<R, C> s(Jm);
    Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(Eigen::MatrixXd(Jm * Jm.transpose()));
    Eigen::VectorXd ev = es.eigenvalues();   // ascending squares of the singular values
    Eigen::VectorXd sv = s.calc_singular_values();
    double prod = 1;
    for (size_t i = 0; i < R; ++i)
    {
        c.near("singular-values", sv(i) * sv(i), ev(R - 1 - i), 1e-9 * (1 + ev(R - 1)));
        prod *= sv(i);
        if (i) c.check("singular-order", sv(i) <= sv(i - 1) + 1e-12);
    }
    typedef JacobiSingularity<R, C> JS;
    if (prod > 1e-4)
    {
        c.near("manipulability-direct", s.calc_manipulability(), prod, 1e-6 * (1 + prod));
        c.near("manipulability-direct2", s.calc_manipulability(JS::DIRECT), prod, 1e-6 * (1 + prod));
    }
    c.near("manipulability-sv", s.calc_manipulability(JS::SINGULAR_VALUES), prod, 1e-9 * (1 + prod));
    c.near("condition", s.calc_condition_number() * sv(R - 1), sv(0), 1e-8 * (1 + sv(0)));
    Eigen::Matrix<double, R, 1> v = r.template mat<R, 1>(-2, 2);
    if (sv(R - 1) > 1e-3)
    {
        Eigen::Matrix<double, C, 1> q = s.calc_joint_vel(v);
        c.nearm("joint-velocity", Jm * q, v, 1e-8);
        // least norm: no component in the null space of the Jacobian
        Eigen::Matrix<double, C, 1> proj = q - Jm.transpose() * (Jm * Jm.transpose()).ldlt().solve(Jm * q);
        c.near("joint-velocity-minimal", proj.norm(), 0, 1e-6 * (1 + q.norm()));
    }
    c.sig.m(sv);
}
SCENARIO(singularity_6_6) { singularity<6, 6>(c); }
SCENARIO(singularity_3_7) { singularity<3, 7>(c); }
SCENARIO(singularity_2_2) { singularity<2, 2>(c); }

SCENARIO(selection)
{
    Rng& r = c.rng;
    SelectionMatrix<3, 9> f(true), b(false);
    SelectionMatrix<2, 4> s(false);
    SelectionMatrix<3, 9> cp(f);
    Eigen::MatrixXd want = Eigen::MatrixXd::Zero(3, 9); want.rightCols(3).setIdentity();
    c.nearm("floating", f, want, 0); c.nearm("fixed", b, want, 0); c.nearm("copy", cp, want, 0);
    Eigen::MatrixXd w2 = Eigen::MatrixXd::Zero(2, 4); w2.rightCols(2).setIdentity();
    c.nearm("small", s, w2, 0);
    f.setRandom(); f.setIdentity(r.coin()); c.nearm("reset", f, want, 0);
    bool threw = false;
    try { SelectionMatrix<2, 4> bad(true); } catch (std::exception&) { threw = true; }
    c.check("small-floating-refused", threw);
    JointAcceleration<3> a; c.nearm("acc-zero", a.getAcceleration(), Eigen::Vector3d::Zero(), 0);
    Eigen::Vector3d v = r.mat<3, 1>(); a.setAcceleration(v); c.nearm("acc", a.getAcceleration(), v, 0); c.near("acc-i", a(1), v(1), 0); c.near("acc-n", a.getSize(), 3, 0);
    c.nearm("acc-static-zero", JointAcceleration<3>::Zero().getAcceleration(), Eigen::Vector3d::Zero(), 0);
    c.sig.m(v);
}
MON_MAIN
