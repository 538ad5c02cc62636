// C30, fixed base: states, systems with and without actuator dynamics, linearisation, LQR with inverse dynamics, task-space
// cost and inverse kinematics of the shipped HyA arm, compiled against the kindr stand-in in harness/stub.
#include <ct/optcon/optcon.h>
#include <ct/rbd/rbd.h>
#include <ct/models/HyA/HyA.h>
#include "mon.hpp"

using namespace ct;
using namespace ct::rbd;
using mon::Case;
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix3d M3;
typedef HyA::Dynamics Dyn;
typedef HyA::Kinematics Kin;
static const int NJ = 6;
typedef Eigen::Matrix<double, NJ, 1> VJ;
typedef Eigen::Matrix<double, NJ, NJ> MJ;
typedef Eigen::MatrixXd MX;

static M3 euler(const V3& e)
{
    return (Eigen::AngleAxisd(e(0), V3::UnitX()) * Eigen::AngleAxisd(e(1), V3::UnitY()) *
            Eigen::AngleAxisd(e(2), V3::UnitZ()))
        .toRotationMatrix();
}
static RigidBodyPose randpose(Case& c, V3& p, M3& R)
{
    V3 e(c.rng.uni(-3, 3), c.rng.uni(-1.3, 1.3), c.rng.uni(-3, 3));
    R = euler(e);
    p = c.rng.mat<3, 1>(-2, 2);
    return RigidBodyPose(kindr::EulerAnglesXyz<double>(e), kindr::Position<double, 3>(p), c.rng.coin() ? RigidBodyPose::EULER : RigidBodyPose::QUAT);
}
static MJ inertia(const VJ& q)
{
    static Dyn d;
    return d.kinematics().robcogen().jSim().update(q);
}
static VJ bias(const VJ& q, const VJ& qd)  // Coriolis, centrifugal and gravity terms
{
    static Dyn d;
    JointState<NJ> s;
    s.getPositions() = q;
    s.getVelocities() = qd;
    VJ u;
    core::ControlVector<NJ> uc;
    d.FixBaseID(s, JointAcceleration<NJ>(VJ(VJ::Zero())), uc);
    u = uc;
    return u;
}
static V3 eePos(const VJ& q)
{
    static Kin k;
    return k.getEEPositionInBase(0, q).toImplementation();
}
static Eigen::Matrix<double, 3, NJ> eeJac(const VJ& q)  // by finite differences of the position
{
    Eigen::Matrix<double, 3, NJ> J;
    const double h = 1e-6;
    for (int i = 0; i < NJ; ++i)
    {
        VJ a = q, b = q;
        a(i) += h;
        b(i) -= h;
        J.col(i) = (eePos(a) - eePos(b)) / (2 * h);
    }
    return J;
}

template <size_t ACT>
static void robot_state_case(Case& c)
{
    typedef FixBaseRobotState<NJ, ACT> S;
    VJ q = c.rng.mat<NJ, 1>(-2, 2), qd = c.rng.mat<NJ, 1>(-2, 2);
    core::StateVector<ACT> act = c.rng.mat<int(ACT), 1>(-2, 2);
    JointState<NJ> js;
    js.getPositions() = q;
    js.getVelocities() = qd;
    S s(js, act), d(s);
    typename S::state_vector_t x = s.toStateVector(), want;
    want << q, qd, act;
    c.nearm("layout", MX(x), MX(want), 0);
    S f(x);
    S g;
    c.nearm("initially_zero", MX(g.actuatorState()), MX(MX::Zero(ACT, 1)), 0);
    g.fromStateVector(x);
    for (S* k : {&d, &f, &g})
    {
        c.nearm("positions", VJ(k->joints().getPositions()), q, 0);
        c.nearm("velocities", VJ(k->joints().getVelocities()), qd, 0);
        c.nearm("actuators", MX(k->actuatorState()), MX(act), 0);
        c.nearm("roundtrip", MX(k->toStateVector()), MX(want), 0);
    }
    c.nearm("static_joints", VJ(S::jointStateFromVector(x).getPositions()), q, 0);
    c.nearm("static_joints", VJ(S::jointStateFromVector(x).getVelocities()), qd, 0);
    c.nearm("static_actuators", MX(S::actuatorStateFromVector(x)), MX(act), 0);
    core::StateVector<2 * NJ> xj = want.template head<2 * NJ>();
    c.nearm("full", MX(S::toFullState(xj, act)), MX(want), 0);
    V3 p;
    M3 R;
    RigidBodyPose pose = randpose(c, p, R);
    RBDState<NJ> r = S::rbdStateFromVector(x, pose), r2 = s.toRBDState(pose);
    for (RBDState<NJ>* k : {&r, &r2})
    {
        c.nearm("rbd_pose", k->basePose().getRotationMatrix().toImplementation(), R, 1e-9);
        c.nearm("rbd_position", V3(k->basePose().position().toImplementation()), p, 1e-12);
        c.nearm("rbd_base_rest", MX(k->baseVelocities().getVector()), MX(MX::Zero(6, 1)), 0);
        c.nearm("rbd_joints", VJ(k->jointPositions()), q, 0);
        c.nearm("rbd_joints", VJ(k->jointVelocities()), qd, 0);
    }
    s.setZero();
    c.nearm("zero", MX(s.toStateVector()), MX(MX::Zero(S::NSTATE, 1)), 0);
    c.nearm("copy_independent", MX(d.toStateVector()), MX(want), 0);
    c.sig.m(want);
}
SCENARIO(robot_state) { c.rng.coin() ? robot_state_case<0>(c) : (c.rng.coin() ? robot_state_case<6>(c) : robot_state_case<4>(c)); }

#if PART == 1
template <class Sys>
static void eom(Case& c, Sys& sys, const VJ& q, const VJ& qd, const VJ& tau, const VJ& ext, const VJ& qdd)
{
    VJ lhs = inertia(q) * qdd + bias(q, qd);
    VJ rhs = tau + ext;
    c.nearm("equation_of_motion", lhs, rhs, 1e-6 * (1 + rhs.cwiseAbs().maxCoeff() * 1e-2));
    JointState<NJ> js;
    js.getPositions() = q;
    js.getVelocities() = qd;
    core::ControlVector<NJ> id = sys.computeIDTorques(js, JointAcceleration<NJ>(qdd));
    c.nearm("inverse_dynamics", VJ(id), rhs, 1e-6 * (1 + rhs.cwiseAbs().maxCoeff() * 1e-2));
    core::ControlVector<NJ> id0 = sys.computeIDTorques(js);
    c.nearm("gravity_compensation", VJ(id0), bias(q, qd), 1e-8);
}

template <bool EE>
static void fd_case(Case& c)
{
    typedef FixBaseFDSystem<Dyn, 0, EE> Sys;
    V3 p;
    M3 R;
    RigidBodyPose base = randpose(c, p, R);
    Sys sys(base);
    std::unique_ptr<Sys> cl(sys.clone());
    for (int rep = 0; rep < 3; ++rep)
    {
        VJ q = c.rng.mat<NJ, 1>(-1.5, 1.5), qd = c.rng.mat<NJ, 1>(-2, 2);
        core::StateVector<2 * NJ> x, dx;
        x << q, qd;
        core::ControlVector<Sys::CONTROL_DIM> u = c.rng.mat<Sys::CONTROL_DIM, 1>(-30, 30);
        dx.setConstant(1e3);
        (rep % 2 ? *cl : sys).computeControlledDynamics(x, c.rng.uni(0, 1), u, dx);
        c.nearm("velocity", VJ(dx.template head<NJ>()), qd, 0);
        VJ ext = VJ::Zero();
        if (EE)
        {
            V3 f;
            for (int k = 0; k < 3; ++k) f(k) = u(int(EE) * (NJ + k));
            ext = eeJac(q).transpose() * (R.transpose() * f);
        }
        eom(c, sys, q, qd, u.template head<NJ>(), ext, dx.template tail<NJ>());
        c.sig.m(dx);
    }
}
SCENARIO(fd_plain) { fd_case<false>(c); }
SCENARIO(fd_ee) { fd_case<true>(c); }

SCENARIO(fd_sea)
{
    typedef FixBaseFDSystem<Dyn, NJ> Sys;
    const double k = c.rng.uni(10, 200), r = c.rng.uni(0.2, 20);
    Sys sys(std::make_shared<SEADynamicsFirstOrder<NJ>>(k, r));
    std::unique_ptr<Sys> cl(sys.clone());
    for (int rep = 0; rep < 3; ++rep)
    {
        VJ q = c.rng.mat<NJ, 1>(-1.5, 1.5), qd = c.rng.mat<NJ, 1>(-2, 2), m = q + c.rng.mat<NJ, 1>(-0.3, 0.3);
        core::StateVector<3 * NJ> x, dx;
        x << q, qd, m;
        core::ControlVector<NJ> u = c.rng.mat<NJ, 1>(-30, 30);
        dx.setConstant(1e3);
        (rep % 2 ? *cl : sys).computeControlledDynamics(x, c.rng.uni(0, 1), u, dx);
        c.nearm("velocity", VJ(dx.head<NJ>()), qd, 0);
        c.nearm("motor", VJ(dx.tail<NJ>()), VJ(u / r), 1e-12);
        eom(c, sys, q, qd, k * (m - q), VJ::Zero(), dx.segment<NJ>(NJ));
        // the actuator state consistent with holding the pose
        JointState<NJ> js;
        js.getPositions() = q;
        js.getVelocities() = qd;
        core::StateVector<NJ> hold = rep % 2 ? cl->computeConsistentActuatorState(js) : sys.computeConsistentActuatorState(js);
        x.tail<NJ>() = hold;
        sys.computeControlledDynamics(x, 0, u, dx);
        c.nearm("consistent_state", VJ(dx.segment<NJ>(NJ)), VJ(VJ::Zero()), 1e-6);
        core::ControlVector<NJ> tau = c.rng.mat<NJ, 1>(-20, 20);
        c.nearm("state_from_output", VJ(sys.getActuatorDynamics()->computeControlOutput(js, sys.computeConsistentActuatorState(js, tau))), VJ(tau), 1e-9);
        c.sig.m(dx);
    }
}

SCENARIO(fd_second_order)
{
    typedef FixBaseFDSystem<Dyn, 2 * NJ> Sys;
    std::vector<double> w, z, g;
    const bool each = c.rng.coin(), gain = c.rng.coin();
    for (int i = 0; i < NJ; ++i)
    {
        w.push_back(i && !each ? w[0] : c.rng.uni(1, 50));
        z.push_back(i && !each ? z[0] : c.rng.uni(0.1, 2));
        g.push_back(!gain ? 1.0 : i && !each ? g[0] : c.rng.uni(0.2, 3));
    }
    typedef SecondOrderActuatorDynamics<NJ> A;
    auto a = each ? (gain ? std::make_shared<A>(w, z, g) : std::make_shared<A>(w, z))
                  : (gain ? std::make_shared<A>(w[0], z[0], g[0]) : std::make_shared<A>(w[0], z[0]));
    Sys sys(a);
    std::unique_ptr<Sys> cl(sys.clone());
    c.cfg = "each=" + mon::str(each) + " gain=" + mon::str(gain);
    for (int rep = 0; rep < 3; ++rep)
    {
        VJ q = c.rng.mat<NJ, 1>(-1.5, 1.5), qd = c.rng.mat<NJ, 1>(-2, 2), y = c.rng.mat<NJ, 1>(-20, 20), yd = c.rng.mat<NJ, 1>(-20, 20);
        core::StateVector<4 * NJ> x, dx;
        x << q, qd, y, yd;
        core::ControlVector<NJ> u = c.rng.mat<NJ, 1>(-30, 30);
        dx.setConstant(1e3);
        (rep % 2 ? *cl : sys).computeControlledDynamics(x, c.rng.uni(0, 1), u, dx);
        c.nearm("velocity", VJ(dx.head<NJ>()), qd, 0);
        c.nearm("actuator_velocity", VJ(dx.segment<NJ>(2 * NJ)), yd, 0);
        VJ ydd;
        for (int i = 0; i < NJ; ++i) ydd(i) = g[i] * w[i] * w[i] * u(i) - 2 * z[i] * w[i] * yd(i) - w[i] * w[i] * y(i);
        c.nearm("actuator_acceleration", VJ(dx.tail<NJ>()), ydd, 1e-9);
        eom(c, sys, q, qd, y, VJ::Zero(), dx.segment<NJ>(NJ));
        c.sig.m(dx);
    }
    bool threw = false;
    w.pop_back();
    try
    {
        A bad(w, z);
    } catch (std::runtime_error&)
    {
        threw = true;
    }
    c.check("size_mismatch", threw, "too few natural frequencies accepted");
}

SCENARIO(simple_systems)
{
    FixBaseAccSystem<Dyn> acc;
    FixBaseVelSystem<Dyn> vel;
    std::unique_ptr<FixBaseAccSystem<Dyn>> ac(acc.clone());
    std::unique_ptr<FixBaseVelSystem<Dyn>> vc(vel.clone());
    VJ q = c.rng.mat<NJ, 1>(), qd = c.rng.mat<NJ, 1>();
    core::StateVector<2 * NJ> x, dx;
    x << q, qd;
    core::ControlVector<NJ> u = c.rng.mat<NJ, 1>();
    (c.rng.coin() ? acc : *ac).computeControlledDynamics(x, 0.2, u, dx);
    c.nearm("acc", VJ(dx.head<NJ>()), qd, 0);
    c.nearm("acc", VJ(dx.tail<NJ>()), VJ(u), 0);
    core::StateVector<NJ> y = q, dy;
    (c.rng.coin() ? vel : *vc).computeControlledDynamics(y, 0.2, u, dy);
    c.nearm("vel", VJ(dy), VJ(u), 0);
    c.sig.m(x);
}

template <bool EE>
static void symplectic_case(Case& c)
{
    typedef FixBaseFDSystemSymplectic<Dyn, 0, EE> Sys;
    Sys sys;
    std::unique_ptr<Sys> cl(sys.clone());
    FixBaseFDSystem<Dyn, 0, EE> ref;
    for (int rep = 0; rep < 2; ++rep)
    {
        core::StateVector<2 * NJ> x = c.rng.mat<2 * NJ, 1>(-1.5, 1.5), dx, want;
        core::ControlVector<Sys::CONTROL_DIM> u = c.rng.mat<Sys::CONTROL_DIM, 1>(-30, 30);
        (rep ? *cl : sys).computeControlledDynamics(x, 0.3, u, dx);
        ref.computeControlledDynamics(x, 0.3, u, want);
        c.nearm("same_dynamics", MX(dx), MX(want), 1e-8);
        c.nearm("joint_state", VJ(Sys::jointStateFromVector(x).getVelocities()), VJ(x.template tail<NJ>()), 0);
        c.nearm("rbd_state", MX(Sys::rbdStateFromVector(x)), MX(x), 0);
        c.nearm("full_state", MX(Sys::toFullState(x)), MX(x), 0);
        V3 p;
        M3 R;
        RigidBodyPose base = randpose(c, p, R);
        c.nearm("rbd_pose", Sys::RBDStateFromVector(x, base).basePose().getRotationMatrix().toImplementation(), R, 1e-9);
        c.nearm("rbd_joints", VJ(Sys::RBDStateFromVector(x, base).jointPositions()), VJ(x.template head<NJ>()), 0);
        c.sig.m(dx);
    }
    // integrated with the symplectic Euler scheme: positions first, with the velocity of the beginning of the step, or the
    // velocities first, with the positions of the beginning of the step; energy without input stays near constant either way
    auto s2 = std::shared_ptr<Sys>(sys.clone());
    core::StateVector<2 * NJ> x0 = c.rng.mat<2 * NJ, 1>(-0.5, 0.5), x = x0;
    const double dt = 1e-3;
    core::IntegratorSymplecticEuler<NJ, NJ, Sys::CONTROL_DIM> in(s2);
    core::ControlVector<Sys::CONTROL_DIM> zero = core::ControlVector<Sys::CONTROL_DIM>::Zero();
    s2->setController(std::make_shared<core::ConstantController<2 * NJ, Sys::CONTROL_DIM>>(zero));
    in.integrate_n_steps(x, 0.0, 20, dt);
    core::StateVector<2 * NJ> y = x0, dy;
    for (int i = 0; i < 20; ++i)  // Runge-Kutta
    {
        core::StateVector<2 * NJ> k1, k2, k3, k4;
        ref.computeControlledDynamics(y, 0, zero, k1);
        ref.computeControlledDynamics(core::StateVector<2 * NJ>(y + 0.5 * dt * k1), 0, zero, k2);
        ref.computeControlledDynamics(core::StateVector<2 * NJ>(y + 0.5 * dt * k2), 0, zero, k3);
        ref.computeControlledDynamics(core::StateVector<2 * NJ>(y + dt * k3), 0, zero, k4);
        y += dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4);
        dy = k4;
    }
    const double speed = 1 + dy.cwiseAbs().maxCoeff();
    c.check("symplectic_step", (x - y).cwiseAbs().maxCoeff() < 20 * dt * dt * speed * speed, "far from the solution: " + mon::str((x - y).cwiseAbs().maxCoeff()) + " speed " + mon::str(speed));
}
SCENARIO(symplectic) { c.rng.coin() ? symplectic_case<false>(c) : symplectic_case<true>(c); }
#endif

#if PART == 2
SCENARIO(linearizer)
{
    typedef FixBaseFDSystem<Dyn> Sys;
    auto sys = std::make_shared<Sys>();
    RbdLinearizer<Sys> lin0(sys, c.rng.coin());
    std::unique_ptr<RbdLinearizer<Sys>> cl(lin0.clone());
    Sys ref;
    for (int rep = 0; rep < 2; ++rep)
    {
        RbdLinearizer<Sys>& lin = c.rng.coin() ? lin0 : *cl;
        core::StateVector<12> x = c.rng.mat<12, 1>(-1.2, 1.2);
        core::ControlVector<NJ> u = c.rng.mat<NJ, 1>(-20, 20);
        MX A, B;
        if (c.rng.coin())
        {
            A = lin.getDerivativeState(x, u, 0.1);
            B = lin.getDerivativeControl(x, u, 0.1);
        }
        else
        {
            B = lin.getDerivativeControl(x, u, 0.1);
            A = lin.getDerivativeState(x, u, 0.1);
        }
        MX An(12, 12), Bn(12, NJ);
        const double h = 1e-5;
        for (int i = 0; i < 12; ++i)
        {
            core::StateVector<12> xp = x, xm = x, fp, fm;
            xp(i) += h;
            xm(i) -= h;
            ref.computeControlledDynamics(xp, 0.1, u, fp);
            ref.computeControlledDynamics(xm, 0.1, u, fm);
            An.col(i) = (fp - fm) / (2 * h);
        }
        Bn.setZero();
        Bn.bottomRows(NJ) = inertia(x.head<NJ>()).inverse();
        c.nearm("A", A, An, 1e-3);
        c.nearm("B", B, Bn, 1e-6);
        c.sig.m(A);
    }
}

SCENARIO(lqr_inverse_dynamics)
{
    typedef FixBaseFDSystem<Dyn> Sys;
    auto sys = std::make_shared<Sys>();
    auto lin = std::make_shared<core::SystemLinearizer<12, NJ>>(std::shared_ptr<core::ControlledSystem<12, NJ>>(sys), true);
    InfiniteHorizonLQRwithInverseDynamics<Dyn> con(sys, lin);
    Dyn::state_vector_t set = Dyn::state_vector_t::Zero();
    set.head<NJ>() = c.rng.mat<NJ, 1>(-1, 1);
    MX Q = c.rng.uni(0.5, 5) * MX::Identity(12, 12), Rm = c.rng.uni(0.01, 0.1) * MX::Identity(NJ, NJ);
    core::FeedbackMatrix<12, NJ> K;
    bool ok = con.designInfiniteHorizonLQR(set, core::StateMatrix<12>(Q), core::StateMatrix<NJ>(Rm), K);
    c.check("success", ok, "LQR design failed at a static posture");
    c.nearm("id_torques", VJ(con.getIDTorques()), bias(set.head<NJ>(), VJ::Zero()), 1e-8);
    c.nearm("gain", MX(con.getK()), MX(K), 0);
    core::ControlVector<NJ> u;
    con.computeControl(set, 0, u);
    c.nearm("setpoint_torque", VJ(u), bias(set.head<NJ>(), VJ::Zero()), 1e-8);
    // the closed loop is stable, and the gain solves the Riccati equation of the linearisation
    MX A = lin->getDerivativeState(set, u, 0), B = lin->getDerivativeControl(set, u, 0);
    Eigen::EigenSolver<MX> es(A - B * MX(K));
    c.check("stable", es.eigenvalues().real().maxCoeff() < 0, "closed loop unstable: " + mon::str(es.eigenvalues().real().maxCoeff()));
    std::unique_ptr<InfiniteHorizonLQRwithInverseDynamics<Dyn>> cl(con.clone());
    core::StateVector<12> x = set + core::StateVector<12>(c.rng.mat<12, 1>(-0.2, 0.2));
    core::ControlVector<NJ> u1, u2;
    con.computeControl(x, 1, u1);
    cl->computeControl(x, 1, u2);
    c.nearm("clone", VJ(u2), VJ(u1), 0);
    c.nearm("law", VJ(u1), VJ(VJ(u) - MX(K) * (x - set)), 1e-9);
    c.sig.m(K);
}

typedef TermTaskspaceGeometricJacobian<Kin, 12, NJ> Term;
static M3 eeRot(const VJ& q)
{
    static Kin k;
    return k.getEERotInBase(0, q);
}
SCENARIO_W(taskspace_term, 2)
{
    M3 Qp = c.rng.spd(3, 0.1, 5), Qr = M3::Identity() * c.rng.uni(0.1, 3);
    V3 pref;
    M3 Rref;
    RigidBodyPose ref = randpose(c, pref, Rref);
    const int how = c.rng.in(0, 3);
    c.cfg = "how=" + mon::str(how);
    std::shared_ptr<Term> t;
    if (how == 0)
        t.reset(new Term(0, Qp, Qr, ref));
    else if (how == 1)
        t.reset(new Term(0, Qp, Qr, core::StateVector<3>(pref), Eigen::Quaterniond(Rref)));
    else if (how == 2)
    {
        t.reset(new Term(0, Qp, Qr));
        t->setReferencePosition(pref);
        t->setReferenceOrientation(Rref);
    }
    else
    {
        V3 e = ref.getEulerAnglesXyz().toImplementation();
        std::ostringstream o;
        o.precision(17);
        o << "T\n{\nweights\n{\neeId 0\nQ_rot\n{\n";
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j) o << "(" << i << "," << j << ") " << Qr(i, j) << "\n";
        o << "}\nQ_pos\n{\n";
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j) o << "(" << i << "," << j << ") " << Qp(i, j) << "\n";
        o << "}\nx_des\n{\n";
        for (int i = 0; i < 3; ++i) o << "(" << i << ",0) " << pref(i) << "\n";
        o << "}\neulerXyz_des\n{\n";
        for (int i = 0; i < 3; ++i) o << "(" << i << ",0) " << e(i) << "\n";
        o << "}\n}\n}\n";
        t.reset(new Term(mon::writefile("task", o.str()), "T", c.rng.coin()));
    }
    std::unique_ptr<Term> cl(t->clone());
    c.nearm("reference", V3(t->getReferencePosition()), pref, 1e-12);
    c.nearm("reference", t->getReferencePose().getRotationMatrix().toImplementation(), Rref, 1e-9);
    Kin kin;
    auto cost = [&](const core::StateVector<12>& x) {
        V3 d = eePos(x.head<NJ>()) - pref;
        Eigen::AngleAxisd a(Eigen::Quaterniond(M3(eeRot(x.head<NJ>()) * Rref.transpose())));
        V3 r = a.axis() * a.angle();
        return 0.5 * d.dot(Qp * d) + 0.5 * r.dot(Qr * r);
    };
    for (int rep = 0; rep < 2; ++rep)
    {
        core::StateVector<12> x = c.rng.mat<12, 1>(-1.5, 1.5);
        core::ControlVector<NJ> u = c.rng.mat<NJ, 1>();
        Eigen::AngleAxisd a(Eigen::Quaterniond(M3(eeRot(x.head<NJ>()) * Rref.transpose())));
        if (a.angle() > 2.9)
            continue;  // the rotation error is not differentiable at a half turn
        Term& use = rep ? *cl : *t;
        c.near("value", use.evaluate(x, u, 0.4), cost(x), 1e-8);
        Eigen::VectorXd g = use.stateDerivative(x, u, 0.4), gn = Eigen::VectorXd::Zero(12);
        const double h = 1e-6;
        for (int i = 0; i < 12; ++i)
        {
            core::StateVector<12> xp = x, xm = x;
            xp(i) += h;
            xm(i) -= h;
            gn(i) = (cost(xp) - cost(xm)) / (2 * h);
        }
        c.nearm("gradient", MX(g), MX(gn), 1e-5);
        c.nearm("control_gradient", MX(use.controlDerivative(x, u, 0.4)), MX(MX::Zero(NJ, 1)), 0);
        MX H = use.stateSecondDerivative(x, u, 0.4);
        c.nearm("hessian_symmetric", H, MX(H.transpose()), 1e-9);
        c.check("hessian_psd", Eigen::SelfAdjointEigenSolver<MX>(H).eigenvalues().minCoeff() > -1e-8, "Gauss-Newton Hessian not positive semidefinite");
        // at zero error the Gauss-Newton Hessian is exact
        Term z(0, Qp, Qr, core::StateVector<3>(eePos(x.head<NJ>())), Eigen::Quaterniond(eeRot(x.head<NJ>())));
        MX Hz = z.stateSecondDerivative(x, u, 0), Hn(12, 12);
        for (int i = 0; i < 12; ++i)
        {
            core::StateVector<12> xp = x, xm = x;
            xp(i) += 1e-5;
            xm(i) -= 1e-5;
            Hn.col(i) = (z.stateDerivative(xp, u, 0) - z.stateDerivative(xm, u, 0)) / 2e-5;
        }
        c.nearm("hessian_at_goal", Hz, Hn, 1e-4);
        c.sig.d(use.evaluate(x, u, 0));
    }
}

typedef IKNLP<Kin> Ik;
typedef IKNLPSolverIpopt<Ik, Kin> IkSolver;
SCENARIO(inverse_kinematics)
{
    VJ lo, up;
    for (int i = 0; i < NJ; ++i)
    {
        lo(i) = c.rng.uni(-1.5, -0.5);
        up(i) = c.rng.uni(0.5, 1.5);
    }
    auto ev = std::make_shared<IKCostEvaluator<Kin>>(0);
    auto nlp = std::make_shared<Ik>(ev, lo, up);
    optcon::NlpSolverSettings set;
    set.solverType_ = optcon::NlpSolverType::IPOPT;
    set.ipoptSettings_.derivativeTest_ = "none";
    set.ipoptSettings_.hessian_approximation_ = c.rng.coin() ? "limited-memory" : "exact";
    set.ipoptSettings_.max_iter_ = 200;
    set.ipoptSettings_.tol_ = 1e-10;
    set.ipoptSettings_.printLevel_ = 0;
    InverseKinematicsSettings iks;
    iks.maxNumTrials_ = 4;
    iks.validationTol_ = 1e-4;
    IkSolver ik(nlp, set, iks, 0);
    ik.configure(set);
    Kin kin;
    V3 pb;
    M3 Rb;
    int found = 0;
    for (int rep = 0; rep < 3; ++rep)
    {
        VJ q;
        const bool inside = rep < 2;
        for (int i = 0; i < NJ; ++i) q(i) = inside ? c.rng.uni(lo(i), up(i)) : up(i) + 0.8;
        RigidBodyPose target = kin.getEEPoseInBase(0, q);
        if (!inside)
            target.position().toImplementation() *= 5;  // out of reach
        ik.setInitialGuess(VJ(q + c.rng.mat<NJ, 1>(-0.1, 0.1)));
        IkSolver::JointPositionsVector_t sols;
        sols.push_back(VJ(VJ::Constant(7)));
        bool ok;
        if (c.rng.coin())
            ok = ik.computeInverseKinematics(sols, target);
        else
        {
            RigidBodyPose base = randpose(c, pb, Rb);
            M3 Rt = target.getRotationMatrix().toImplementation();
            V3 pt = target.position().toImplementation();
            RigidBodyPose world(kindr::RotationQuaternion<double>(Eigen::Quaterniond(M3(Rb * Rt))), kindr::Position<double, 3>(V3(pb + Rb * pt)), RigidBodyPose::QUAT);
            ok = ik.computeInverseKinematics(sols, world, base, {});
        }
        c.check("flag", ok == !sols.empty(), "return value and list of solutions disagree");
        for (auto& s : sols)
        {
            c.nearm("reaches_position", eePos(s), V3(target.position().toImplementation()), 1e-3);
            c.nearm("reaches_rotation", eeRot(s), target.getRotationMatrix().toImplementation(), 1e-3);
            for (int i = 0; i < NJ; ++i) c.check("joint_limits", s(i) > lo(i) - 1e-6 && s(i) < up(i) + 1e-6, "solution outside the joint limits");
        }
        if (!inside)
            c.check("unreachable", !ok, "unreachable pose reported as solved");
        found += ok;
    }
    c.sig.i(found);
    c.sig.m(lo);
}
#endif

MON_MAIN
