// C30, floating base: poses, states, kinematics, dynamics, contacts and systems of the shipped HyQ model, compiled against
// the small kindr stand-in in harness/stub. Oracles: rotation matrices, finite differences of positions along the motion,
// power balance, residuals of the equations of motion, fresh objects.
#include <ct/optcon/optcon.h>
#include <ct/rbd/rbd.h>
#include <ct/models/HyQ/HyQ.h>
#include <ct/rbd/operationalSpace/rigid_body/OperationalModelRBD.h>
#include "mon.hpp"

using namespace ct;
using namespace ct::rbd;
using mon::Case;
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix3d M3;
typedef Eigen::Matrix<double, 6, 1> V6;
typedef HyQ::Dynamics Dyn;
typedef HyQ::Kinematics Kin;
static const int NJ = 12;
typedef RBDState<NJ> State;
typedef RBDAcceleration<NJ> Acc;
typedef RigidBodyPose Pose;
typedef Eigen::Matrix<double, 18, 1> V18;
typedef Eigen::Matrix<double, NJ, 1> VJ;

static M3 skew(const V3& v)
{
    M3 m;
    m << 0, -v(2), v(1), v(2), 0, -v(0), -v(1), v(0), 0;
    return m;
}
static M3 euler(const V3& e)
{
    return (Eigen::AngleAxisd(e(0), V3::UnitX()) * Eigen::AngleAxisd(e(1), V3::UnitY()) *
            Eigen::AngleAxisd(e(2), V3::UnitZ()))
        .toRotationMatrix();
}
static V3 angles(Case& c) { return V3(c.rng.uni(-3, 3), c.rng.uni(-1.3, 1.3), c.rng.uni(-3, 3)); }
static Pose::STORAGE_TYPE storage(Case& c) { return c.rng.coin() ? Pose::EULER : Pose::QUAT; }
static Pose pose(Case& c, V3& p, M3& R)
{
    V3 e = angles(c);
    R = euler(e);
    p = c.rng.mat<3, 1>(-3, 3);
    return Pose(kindr::EulerAnglesXyz<double>(e), kindr::Position<double, 3>(p), storage(c));
}
static State state(Case& c)
{
    State s(storage(c));
    V3 e = angles(c);
    s.basePose().setFromEulerAnglesXyz(e);
    s.basePose().position().toImplementation() = c.rng.mat<3, 1>(-2, 2);
    s.baseVelocities().setVector(c.rng.mat<6, 1>(-1.5, 1.5));
    s.jointPositions() = c.rng.mat<NJ, 1>(-1.2, 1.2);
    s.jointVelocities() = c.rng.mat<NJ, 1>(-2, 2);
    return s;
}
static M3 rot(const State& s) { return s.basePose().getRotationMatrix().toImplementation(); }
// the state after moving for a (small) time h with the velocities of s, velocities changing with acc
static State advance(const State& s, double h, const V18& acc = V18::Zero())
{
    State o(Pose::QUAT);
    V3 w = s.baseLocalAngularVelocity().toImplementation(), v = s.baseLinearVelocity().toImplementation();
    M3 R = rot(s), dR = R;
    const double a = w.norm() * h;
    if (w.norm() > 0)
        dR = R * Eigen::AngleAxisd(a, w.normalized()).toRotationMatrix();
    o.basePose().setFromRotationMatrix(kindr::RotationMatrix<double>(dR));
    o.basePose().position().toImplementation() = s.basePose().position().toImplementation() + h * (R * v);
    o.baseVelocities().setVector(s.baseVelocities().getVector() + h * acc.head<6>());
    o.jointPositions() = s.jointPositions() + h * s.jointVelocities();
    o.jointVelocities() = s.jointVelocities() + h * acc.tail<NJ>();
    return o;
}
static void same(Case& c, const char* n, const State& a, const State& b, double tol = 1e-9)
{
    c.nearm(n, rot(a), rot(b), tol);
    c.nearm(n, a.basePose().position().toImplementation(), b.basePose().position().toImplementation(), tol);
    c.nearm(n, a.toCoordinateVelocity(), b.toCoordinateVelocity(), tol);
    c.nearm(n, VJ(a.jointPositions()), VJ(b.jointPositions()), tol);
}

#if PART == 1
SCENARIO_W(pose_conversions, 3)
{
    V3 e = angles(c), p = c.rng.mat<3, 1>(-3, 3), v = c.rng.mat<3, 1>(-2, 2);
    M3 R = euler(e);
    Eigen::Quaterniond q(R);
    if (c.rng.coin())
        q.coeffs() *= -1;  // the same rotation
    Pose::STORAGE_TYPE st = storage(c);
    const int how = c.rng.in(0, 7);
    c.cfg = "how=" + mon::str(how) + " storage=" + mon::str(int(st));
    std::shared_ptr<Pose> P;
    kindr::Position<double, 3> kp(p);
    switch (how)
    {
        case 0: P.reset(new Pose(kindr::EulerAnglesXyz<double>(e), kp, st)); break;
        case 1: P.reset(new Pose(kindr::RotationQuaternion<double>(q), kp, st)); break;
        case 2: P.reset(new Pose(q, p, st)); break;
        case 3:
        {
            Eigen::Matrix4d T = Eigen::Matrix4d::Identity();
            T.topLeftCorner<3, 3>() = R;
            T.topRightCorner<3, 1>() = p;
            P.reset(new Pose(T, st));
            break;
        }
        default:
        {
            V3 p0;
            M3 R0;
            Pose init = pose(c, p0, R0);
            P.reset(new Pose(st));
            if (c.rng.coin())
                *P = init;  // overwritten below; assignment takes the storage of the source
            st = P->getStorageType();
            if (how == 4)
                P->setFromEulerAnglesXyz(kindr::EulerAnglesXyz<double>(e));
            if (how == 5)
                P->setFromEulerAnglesXyz(e);
            if (how == 6)
                c.rng.coin() ? P->setFromRotationQuaternion(kindr::RotationQuaternion<double>(q)) : P->setFromRotationQuaternion(q);
            if (how == 7)
                P->setFromRotationMatrix(kindr::RotationMatrix<double>(R));
            P->position() = kp;
        }
    }
    Pose cp(*P);
    Pose* use[2] = {P.get(), &cp};
    for (int k = 0; k < 2; ++k)
    {
        Pose& x = *use[k];
        c.check("storage", x.getStorageType() == st, "storage type not the requested one");
        c.nearm("rotation_matrix", x.getRotationMatrix().toImplementation(), R, 1e-9);
        c.nearm("quaternion", x.getRotationQuaternion().matrix(), R, 1e-9);
        c.nearm("euler", euler(x.getEulerAnglesXyz().toImplementation()), R, 1e-9);
        c.nearm("position", x.position().toImplementation(), p, 1e-15);
        c.nearm("base_to_inertia", x.rotateBaseToInertia(v), V3(R * v), 1e-9);
        c.nearm("inertia_to_base", x.rotateInertiaToBase(v), V3(R.transpose() * v), 1e-9);
        kindr::Position<double, 3> kv(v);
        c.nearm("base_to_inertia_k", x.rotateBaseToInertia(kv).toImplementation(), V3(R * v), 1e-9);
        M3 A = c.rng.mat<3, 3>();
        c.nearm("base_to_inertia_mat", x.rotateBaseToInertiaMat(A), M3(R * A), 1e-9);
        M3 R2 = euler(angles(c));
        kindr::RotationQuaternion<double> q2((kindr::RotationMatrix<double>(R2)));
        c.nearm("base_to_inertia_quat", x.rotateBaseToInertiaQuaternion(q2).matrix(), M3(R * R2), 1e-9);
        c.nearm("gravity", x.computeGravityB(), V3(R.transpose() * V3(0, 0, -9.81)), 1e-9);
        V3 g = c.rng.mat<3, 1>(-10, 10);
        V6 g6 = x.computeGravityB6D(g);
        c.nearm("gravity6", V3(g6.tail<3>()), V3(R.transpose() * g), 1e-9);
        c.nearm("gravity6_rot", V3(g6.head<3>()), V3(V3::Zero()), 0);
        V3 pr;
        M3 Rr;
        Pose ref = pose(c, pr, Rr);
        Pose rel = x.inReferenceFrame(ref);
        c.nearm("relative_rotation", rel.getRotationMatrix().toImplementation(), M3(Rr.transpose() * R), 1e-9);
        c.nearm("relative_position", rel.position().toImplementation(), V3(Rr.transpose() * (p - pr)), 1e-9);
        Pose other(kindr::RotationQuaternion<double>(q), kp, storage(c));
        c.check("near_self", x.isNear(other, 1e-7), "pose not near the same pose");
        Pose off(kindr::RotationQuaternion<double>(Eigen::Quaterniond(M3(R * euler(V3(0.1, 0, 0))))), kp, storage(c));
        c.check("not_near_rotated", !x.isNear(off, 1e-4), "rotated pose reported near");
        Pose off2(kindr::RotationQuaternion<double>(q), kindr::Position<double, 3>(V3(p + V3(0, 0.5, 0))), storage(c));
        c.check("not_near_moved", !x.isNear(off2, 1e-4), "moved pose reported near");
    }
    P->setIdentity();
    c.nearm("identity", P->getRotationMatrix().toImplementation(), M3(M3::Identity()), 1e-15);
    c.nearm("identity", P->getRotationQuaternion().matrix(), M3(M3::Identity()), 1e-15);
    c.nearm("identity", P->position().toImplementation(), V3(V3::Zero()), 0);
    c.nearm("copy_independent", cp.getRotationMatrix().toImplementation(), R, 1e-9);
    c.sig.m(R);
}

SCENARIO_W(state_vectors, 3)
{
    State s = state(c);
    const M3 R = rot(s);
    // documented layouts
    State::state_vector_euler_t xe = s.toStateVectorEulerXyz();
    State::state_vector_quat_t xq = s.toStateVectorQuaternion();
    c.nearm("euler_layout", euler(V3(xe.head<3>())), R, 1e-9);
    c.nearm("euler_layout", V3(xe.segment<3>(3)), s.basePose().position().toImplementation(), 0);
    c.nearm("euler_layout", VJ(xe.segment<NJ>(6)), VJ(s.jointPositions()), 0);
    c.nearm("euler_layout", V6(xe.segment<6>(18)), s.baseVelocities().getVector(), 0);
    c.nearm("euler_layout", VJ(xe.tail<NJ>()), VJ(s.jointVelocities()), 0);
    c.nearm("quat_layout", Eigen::Quaterniond(xq(0), xq(1), xq(2), xq(3)).toRotationMatrix(), R, 1e-9);
    c.nearm("quat_layout", Eigen::MatrixXd(xq.tail<33>()), Eigen::MatrixXd(xe.tail<33>()), 0);
    c.nearm("unique", euler(V3(s.toStateVectorEulerXyzUnique().head<3>())), R, 1e-9);
    c.nearm("coordinates", Eigen::MatrixXd(s.toCoordinatePosition()), Eigen::MatrixXd(xe.head<18>()), 0);
    c.nearm("coordinates", Eigen::MatrixXd(s.toCoordinateVelocity()), Eigen::MatrixXd(xe.tail<18>()), 0);
    State a(storage(c)), b(storage(c));
    a.setRandom();
    a.fromStateVectorEulerXyz(xe);
    b.fromStateVectorQuaternion(xq);
    same(c, "from_euler", a, s);
    same(c, "from_quat", b, s);
    State a2(storage(c)), b2(storage(c));
    a2.fromStateVectorRaw(xe);
    b2.fromStateVectorRaw(xq);
    same(c, "from_euler_raw", a2, s);
    same(c, "from_quat_raw", b2, s);
    c.nearm("velocity_world", s.base().computeTranslationalVelocityW().toImplementation(),
        V3(R * s.baseLinearVelocity().toImplementation()), 1e-9);
    State cp(s);
    same(c, "copy", cp, s, 0);
    c.check("approx", cp.isApprox(s, 1e-7), "copy not approximately equal");
    const int which = c.rng.in(0, 3);
    if (which == 0)
        cp.jointPositions()(c.rng.in(0, NJ - 1)) += 0.5;
    if (which == 1)
        cp.jointVelocities()(c.rng.in(0, NJ - 1)) += 0.5;
    if (which == 2)
        cp.baseLocalAngularVelocity().toImplementation()(c.rng.in(0, 2)) += 0.5;
    if (which == 3)
        cp.basePose().position().toImplementation()(c.rng.in(0, 2)) += 0.5;
    c.check("not_approx", !cp.isApprox(s, 1e-4), "different state reported equal");
    // with actuator states
    typedef FloatingBaseRobotState<NJ, 0> F0;
    typedef FloatingBaseRobotState<NJ, 3> F3;
    Eigen::Vector3d act = c.rng.mat<3, 1>();
    F3 f(s, core::StateVector<3>(act));
    F3::state_vector_euler_t fe = f.toStateVectorEulerXyz();
    F3::state_vector_quat_t fq = f.toStateVectorQuaternion();
    c.nearm("fb3_euler", Eigen::MatrixXd(fe.head<36>()), Eigen::MatrixXd(xe), 1e-9);
    c.nearm("fb3_euler", V3(fe.tail<3>()), act, 0);
    c.nearm("fb3_quat", Eigen::MatrixXd(fq.head<37>()), Eigen::MatrixXd(xq), 1e-9);
    c.nearm("fb3_quat", V3(fq.tail<3>()), act, 0);
    F3 g1(storage(c)), g2(storage(c));
    g1.fromStateVectorEulerXyz(fe);
    g2.fromStateVectorQuaternion(fq);
    same(c, "fb3_from_euler", g1, s);
    same(c, "fb3_from_quat", g2, s);
    c.nearm("fb3_act", V3(g1.actuatorState()), act, 0);
    c.nearm("fb3_act", V3(g2.actuatorState()), act, 0);
    F0 z(s);
    c.nearm("fb0_euler", Eigen::MatrixXd(z.toStateVectorEulerXyz()), Eigen::MatrixXd(xe), 1e-9);
    c.nearm("fb0_quat", Eigen::MatrixXd(z.toStateVectorQuaternion()), Eigen::MatrixXd(xq), 1e-9);
    F0 h1(storage(c)), h2(storage(c));
    h1.fromStateVectorEulerXyz(xe);
    h2.fromStateVectorQuaternion(xq);
    same(c, "fb0_from_euler", h1, s);
    same(c, "fb0_from_quat", h2, s);
    F3 gc(g1);
    g1.setZero();
    c.nearm("fb3_zero", V3(g1.actuatorState()), V3(V3::Zero()), 0);
    c.nearm("fb3_zero", Eigen::MatrixXd(g1.toStateVectorEulerXyz()), Eigen::MatrixXd(Eigen::VectorXd::Zero(39)), 1e-12);
    same(c, "fb3_copy", gc, s);
    State d(s);
    d.setDefault();
    c.nearm("default", Eigen::MatrixXd(d.toStateVectorEulerXyz()), Eigen::MatrixXd(Eigen::VectorXd::Zero(36)), 1e-12);
    c.sig.m(xe);
}

SCENARIO(state_updates)
{
    State s = state(c);
    Acc acc;
    V18 ddq = c.rng.mat<18, 1>(-3, 3);
    acc.base().fromVector6d(V6(ddq.head<6>()));
    acc.joints().setAcceleration(VJ(ddq.tail<NJ>()));
    c.nearm("coordinate_acceleration", Eigen::MatrixXd(acc.toCoordinateAcceleration()), Eigen::MatrixXd(ddq), 0);
    c.nearm("base_vector", acc.base().getVector6d(), V6(ddq.head<6>()), 0);
    State::state_vector_euler_t de = acc.toStateUpdateVectorEulerXyz(s);
    State::state_vector_quat_t dq = acc.toStateUpdateVectorQuaternion(s);
    const M3 R = rot(s);
    const V3 w = s.baseLocalAngularVelocity().toImplementation(), v = s.baseLinearVelocity().toImplementation();
    const double h = 1e-6;
    V3 e0 = s.basePose().getEulerAnglesXyz().toImplementation();
    M3 dR = (euler(e0 + h * V3(de.head<3>())) - euler(e0 - h * V3(de.head<3>()))) / (2 * h);
    const double slope = 1 + de.head<3>().norm();
    c.nearm("euler_rate", dR, M3(R * skew(w)), 1e-6 * slope * slope);
    Eigen::Quaterniond q = s.basePose().getRotationQuaternion().toImplementation();
    Eigen::Vector4d qv(q.w(), q.x(), q.y(), q.z()), qd = dq.head<4>();
    auto Rq = [](const Eigen::Vector4d& a) { return Eigen::Quaterniond(a(0), a(1), a(2), a(3)).toRotationMatrix(); };
    c.nearm("quat_rate", M3((Rq(qv + h * qd) - Rq(qv - h * qd)) / (2 * h)), M3(R * skew(w)), 1e-6);
    c.near("quat_norm", qv.dot(qd), 0.0, 1e-9);
    c.nearm("position_rate", V3(de.segment<3>(3)), V3(R * v), 1e-9);
    c.nearm("joint_rate", VJ(de.segment<NJ>(6)), VJ(s.jointVelocities()), 0);
    c.nearm("velocity_rate", V18(de.tail<18>()), ddq, 0);
    c.nearm("quat_rest", Eigen::MatrixXd(dq.tail<33>()), Eigen::MatrixXd(de.tail<33>()), 1e-9);
    acc.setZero();
    c.nearm("zero", Eigen::MatrixXd(acc.toCoordinateAcceleration()), Eigen::MatrixXd(Eigen::VectorXd::Zero(18)), 0);
    c.sig.m(de);
}

struct DummyIK : InverseKinematicsBase<NJ, double>
{
    typedef InverseKinematicsBase<NJ, double> B;
    B::JointPositionsVector_t sols;
    bool computeInverseKinematics(B::JointPositionsVector_t& o, const B::RigidBodyPoseTpl&, const std::vector<size_t>&) override
    {
        o = sols;
        return !sols.empty();
    }
    bool computeInverseKinematics(B::JointPositionsVector_t& o, const B::RigidBodyPoseTpl&, const B::RigidBodyPoseTpl&,
        const std::vector<size_t>&) override
    {
        o = sols;
        return !sols.empty();
    }
};

SCENARIO_W(kinematics, 2)
{
    Kin kin0;
    std::unique_ptr<Kin> cl(kin0.clone());
    Kin& kin = c.rng.coin() ? kin0 : *cl;
    for (int rep = 0; rep < 2; ++rep)
    {
        State s = state(c);
        const M3 R = rot(s);
        const V3 p = s.basePose().position().toImplementation();
        const VJ q = s.jointPositions();
        const double h = 1e-5;
        State f = advance(s, h), b = advance(s, -h);
        for (size_t ee = 0; ee < 4; ++ee)
        {
            V3 pb = kin.getEEPositionInBase(ee, q).toImplementation();
            V3 pw = kin.getEEPositionInWorld(ee, s.basePose(), q).toImplementation();
            c.nearm("ee_world", pw, V3(p + R * pb), 1e-9);
            Pose eb = kin.getEEPoseInBase(ee, q), ew = kin.getEEPoseInWorld(ee, s.basePose(), q);
            M3 Re = kin.getEERotInBase(ee, q);
            c.nearm("ee_pose_base", eb.position().toImplementation(), pb, 1e-12);
            c.nearm("ee_pose_base", eb.getRotationMatrix().toImplementation(), Re, 1e-7);
            c.nearm("ee_pose_world", ew.position().toImplementation(), pw, 1e-9);
            c.nearm("ee_pose_world", ew.getRotationMatrix().toImplementation(), M3(R * Re), 1e-7);
            c.nearm("ee_rot_world", kin.getEERotInWorld(ee, s.basePose(), q), M3(R * Re), 1e-9);
            V3 vw = kin.getEEVelocityInWorld(ee, s).toImplementation(), vb = kin.getEEVelocityInBase(ee, s).toImplementation();
            V3 num = (kin.getEEPositionInWorld(ee, f.basePose(), f.jointPositions()).toImplementation() -
                         kin.getEEPositionInWorld(ee, b.basePose(), b.jointPositions()).toImplementation()) /
                     (2 * h);
            c.nearm("ee_velocity", vw, num, 1e-6);
            c.nearm("ee_velocity_base", vb, V3(R.transpose() * vw), 1e-9);
            // geometric Jacobian: linear and angular part
            Kin::Jacobian J = kin.getJacobianBaseEEbyId(ee, s);
            VJ qf = q + h * VJ(s.jointVelocities()), qb = q - h * VJ(s.jointVelocities());
            V3 pl = (kin.getEEPositionInBase(ee, qf).toImplementation() - kin.getEEPositionInBase(ee, qb).toImplementation()) / (2 * h);
            M3 dRe = (kin.getEERotInBase(ee, qf) - kin.getEERotInBase(ee, qb)) / (2 * h);
            V6 tw = J * s.jointVelocities();
            c.nearm("jac_linear", V3(tw.tail<3>()), pl, 1e-6);
            c.nearm("jac_angular", M3(skew(V3(tw.head<3>())) * Re), dRe, 1e-6);
            // a wrench in the world and the wrench mapped to the link do the same work
            SpatialForceVector<double> W(c.rng.mat<6, 1>(-10, 10));
            SpatialForceVector<double> L = kin.mapForceFromWorldToLink(W, s.basePose(), q, ee);
            SpatialForceVector<double> L3 = kin.mapForceFromWorldToLink3d(V3(W.force()), s.basePose(), q, ee);
            const size_t link = kin.getEndEffector(ee).getLinkId();
            Eigen::Matrix4d T = kin.robcogen().getHomogeneousTransformBaseLinkById(link, q);
            M3 Rl = T.topLeftCorner<3, 3>();
            V3 pl0 = T.topRightCorner<3, 1>();
            V3 fb = R.transpose() * V3(W.force()), tb = R.transpose() * V3(W.torque());
            c.nearm("link_force", V3(L.force()), V3(Rl.transpose() * fb), 1e-8);
            c.nearm("link_torque", V3(L.torque()), V3(Rl.transpose() * (tb + (pb - pl0).cross(fb))), 1e-8);
            c.nearm("link_force3", V3(L3.force()), V3(Rl.transpose() * fb), 1e-8);
            c.nearm("link_torque3", V3(L3.torque()), V3(Rl.transpose() * (pb - pl0).cross(fb)), 1e-8);
            SpatialForceVector<double> E(c.rng.mat<6, 1>(-10, 10));
            SpatialForceVector<double> Le = kin.mapForceFromEEToLink(E, eb, q, ee);
            V3 fe = Re * V3(E.force()), te = Re * V3(E.torque());
            c.nearm("ee_link_force", V3(Le.force()), V3(Rl.transpose() * fe), 1e-6);
            c.nearm("ee_link_torque", V3(Le.torque()), V3(Rl.transpose() * (te + (pb - pl0).cross(fe))), 1e-6);
        }
        c.sig.m(q);
    }
    // solver registry
    auto ik = std::make_shared<DummyIK>();
    const size_t ee = c.rng.in(0, 3), id = c.rng.in(0, 99);
    kin.addIKSolver(ik, ee, id);
    bool threw = false;
    try
    {
        kin.addIKSolver(ik, ee, id);
    } catch (std::runtime_error&)
    {
        threw = true;
    }
    c.check("ik_duplicate", threw, "duplicate solver accepted");
    auto ik2 = std::make_shared<DummyIK>();
    kin.addIKSolver(ik2, (ee + 1) % 4, id);
    c.check("ik_get", kin.getIKSolver(ee, id) == ik, "wrong solver returned");
    c.check("ik_get2", kin.getIKSolver((ee + 1) % 4, id) == ik2, "wrong solver returned");
    std::unique_ptr<Kin> kc(kin.clone());
    c.check("ik_clone", kc->getIKSolver(ee, id) == ik, "clone lost the solver");
    // closest solution
    DummyIK::B::JointPosition_t want, got, query = c.rng.mat<NJ, 1>();
    double best = 1e9;
    const int n = c.rng.in(0, 6);
    for (int i = 0; i < n; ++i)
    {
        DummyIK::B::JointPosition_t x = c.rng.mat<NJ, 1>(-2, 2);
        if ((x - query).norm() < best)
        {
            best = (x - query).norm();
            want = x;
        }
        ik->sols.push_back(x);
    }
    const bool ok = c.rng.coin() ? ik->computeInverseKinematicsCloseTo(got, Pose(), Pose(), query) :
                                   ik->computeInverseKinematicsCloseTo(got, Pose(), query);
    c.check("ik_found", ok == (n > 0), "wrong return value");
    if (n > 0)
        c.nearm("ik_closest", got, want, 0);
}

#endif

static double kinetic(Dyn& d, const State& s)
{
    V18 v = s.toCoordinateVelocity();
    Eigen::Matrix<double, 18, 18> M = d.kinematics().robcogen().jSim().update(s.jointPositions());
    return 0.5 * v.dot(M * v);
}
// potential energy through the centre of mass: sum of the link masses' heights
static V6 zero6() { return V6::Zero(); }

#if PART == 2
SCENARIO_W(dynamics, 2)
{
    auto kin = std::make_shared<Kin>();
    Dyn d0(kin);
    Dyn d1(d0);
    Dyn& d = c.rng.coin() ? d0 : d1;
    for (int rep = 0; rep < 2; ++rep)
    {
        State s = state(c);
        VJ u = c.rng.mat<NJ, 1>(-50, 50);
        Dyn::ExtLinkForces_t F(zero6());
        std::array<V3, 4> fw;
        for (size_t ee = 0; ee < 4; ++ee)
        {
            fw[ee] = c.rng.coin() ? V3(c.rng.mat<3, 1>(-100, 100)) : V3(V3::Zero());
            F[static_cast<Dyn::ROBCOGEN::LinkIdentifiers>(kin->getEndEffector(ee).getLinkId())] =
                kin->mapForceFromWorldToLink3d(fw[ee], s.basePose(), s.jointPositions(), ee);
        }
        Acc a;
        d.FloatingBaseForwardDynamics(s, u, F, a);
        const V18 dd = a.toCoordinateAcceleration();
        const double sc = 1 + dd.cwiseAbs().maxCoeff();
        c.nontrivial |= dd.norm() > 0.1;
        // equations of motion: M dd + h = S' u + J' f, with h from zero acceleration inverse dynamics
        Eigen::Matrix<double, 18, 18> M = kin->robcogen().jSim().update(s.jointPositions());
        V18 rhs = V18::Zero();
        rhs.tail<NJ>() = u;
        const M3 R = rot(s);
        for (size_t ee = 0; ee < 4; ++ee)
        {
            V3 pb = kin->getEEPositionInBase(ee, s.jointPositions()).toImplementation(), fb = R.transpose() * fw[ee];
            rhs.head<3>() += pb.cross(fb);
            rhs.segment<3>(3) += fb;
            rhs.tail<NJ>() += kin->getJacobianBaseEEbyId(ee, s).bottomRows<3>().transpose() * fb;
        }
        Dyn::ForceVector_t bw;
        VJ jf;
        kin->robcogen().inverseDynamics().C_terms_fully_actuated(
            bw, jf, s.baseVelocities().getVector(), s.jointPositions(), s.jointVelocities());
        V18 hh;
        hh << bw, jf;
        // a free fall of a resting robot accelerates with gravity: the gravity terms are -M g
        V18 gacc = V18::Zero();
        gacc.segment<3>(3) = R.transpose() * V3(0, 0, -9.81);
        hh -= M * gacc;
        c.nearm("equation_of_motion", Eigen::MatrixXd(M * dd + hh), Eigen::MatrixXd(rhs), 1e-6 * sc);
        // power balance: kinetic energy changes by the power of torques, external forces and gravity
        const double h = 1e-5;
        const double dT = (kinetic(d, advance(s, h, dd)) - kinetic(d, advance(s, -h, dd))) / (2 * h);
        double power = u.dot(VJ(s.jointVelocities()));
        for (size_t ee = 0; ee < 4; ++ee)
            power += fw[ee].dot(kin->getEEVelocityInWorld(ee, s).toImplementation());
        power += V18(M * gacc).dot(V18(s.toCoordinateVelocity()));
        c.near("power", dT, power, 1e-4 * sc * (1 + std::fabs(power) / sc));
        // inverse dynamics
        VJ u2;
        RigidBodyAcceleration ba;
        d.FloatingBaseID(s, a.joints(), F, u2, ba);
        c.nearm("id_torque", u2, u, 1e-6 * sc);
        c.nearm("id_base", ba.getVector6d(), a.base().getVector6d(), 1e-6 * sc);
        VJ u3;
        Dyn::ForceVector_t w3;
        d.FloatingBaseFullyActuatedID(s, a.base(), a.joints(), F, w3, u3);
        c.nearm("id_full_torque", u3, u, 1e-6 * sc);
        c.nearm("id_full_wrench", w3, V6(V6::Zero()), 1e-5 * sc);
        // other accelerations: the base wrench makes up for the difference
        Acc a2;
        a2.base().fromVector6d(c.rng.mat<6, 1>(-5, 5));
        a2.joints().setAcceleration(VJ(c.rng.mat<NJ, 1>(-5, 5)));
        d.FloatingBaseFullyActuatedID(s, a2.base(), a2.joints(), F, w3, u3);
        V18 full;
        full << w3, u3;
        V18 want = M * V18(a2.toCoordinateAcceleration()) + hh - (rhs - (V18() << V6::Zero(), u).finished());
        c.nearm("id_full", Eigen::MatrixXd(full), Eigen::MatrixXd(want), 1e-6);
        c.sig.m(dd);
    }
}

SCENARIO_W(contacts, 3)
{
    auto kin = std::make_shared<Kin>();
    Dyn d(kin);
    auto pk = std::make_shared<Kin>();
    ProjectedDynamics<Dyn::ROBCOGEN, 4> pd(pk);
    std::string hist;
    for (int rep = 0; rep < 4; ++rep)
    {
        State s = state(c);
        // a plausible posture keeps the legs away from their singularities
        for (int l = 0; l < 4; ++l)
        {
            s.jointPositions()(3 * l) = c.rng.uni(-0.4, 0.4);
            s.jointPositions()(3 * l + 1) = (l < 2 ? 1 : -1) * c.rng.uni(0.4, 1.0);
            s.jointPositions()(3 * l + 2) = (l < 2 ? -1 : 1) * c.rng.uni(0.8, 1.6);
        }
        VJ u = c.rng.mat<NJ, 1>(-50, 50);
        Dyn::EE_in_contact_t con(false);
        int n = 0;
        for (size_t ee = 0; ee < 4; ++ee)
        {
            con[ee] = c.rng.coin(0.6);
            n += con[ee];
            hist += con[ee] ? '1' : '0';
        }
        hist += ' ';
        Acc a;
        d.ProjectedForwardDynamics(con, s, u, a);
        const V18 dd = a.toCoordinateAcceleration();
        const double sc = 1 + dd.cwiseAbs().maxCoeff();
        // feet in contact keep their velocity
        const double h = 1e-5;
        State f = advance(s, h, dd), b = advance(s, -h, dd);
        for (size_t ee = 0; ee < 4; ++ee)
            if (con[ee])
            {
                V3 acc = (kin->getEEVelocityInWorld(ee, f).toImplementation() - kin->getEEVelocityInWorld(ee, b).toImplementation()) /
                         (2 * h);
                c.nearm("contact_acceleration", acc, V3(V3::Zero()), 1e-4 * sc);
            }
        // the motion is that of the free robot with the reported contact forces
        if (c.rng.coin())
            pd.setContactConfiguration(con);
        else
        {
            Dyn::EE_in_contact_t all(true);
            pd.setContactConfiguration(all);
            pd.setContactConfiguration(con);
        }
        Dyn::EE_in_contact_t back;
        pd.getContactConfiguration(back);
        for (size_t ee = 0; ee < 4; ++ee) c.check("configuration", back[ee] == con[ee], hist);
        Acc a1;
        pd.ProjectedForwardDynamics(s, u, a1);
        c.nearm("two_objects", Eigen::MatrixXd(a1.toCoordinateAcceleration()), Eigen::MatrixXd(dd), 1e-7 * sc);
        ProjectedDynamics<Dyn::ROBCOGEN, 4>::EE_contact_forces_t lam(V3::Constant(7));
        if (c.rng.coin())
            pd.getContactForcesInBase(lam);
        else
            pd.getContactForcesInBase(s, u, lam);
        Dyn::ExtLinkForces_t F(zero6());
        const M3 R = rot(s);
        double lmax = 1;
        for (size_t ee = 0; ee < 4; ++ee)
        {
            if (!con[ee])
                c.nearm("no_contact_no_force", V3(lam[ee]), V3(V3::Zero()), 0);
            lmax = std::max(lmax, V3(lam[ee]).norm());
            F[static_cast<Dyn::ROBCOGEN::LinkIdentifiers>(kin->getEndEffector(ee).getLinkId())] =
                kin->mapForceFromWorldToLink3d(V3(R * lam[ee]), s.basePose(), s.jointPositions(), ee);
        }
        Acc a2;
        d.FloatingBaseForwardDynamics(s, u, F, a2);
        c.nearm("forces_explain_motion", Eigen::MatrixXd(a2.toCoordinateAcceleration()), Eigen::MatrixXd(dd), 1e-6 * (sc + lmax));
        // projected inverse dynamics reproduces a feasible motion with enough feet on the ground, for every history
        VJ ui, uf;
        d.ProjectedInverseDynamics(con, s, a, ui);
        Dyn fresh;
        fresh.ProjectedInverseDynamics(con, s, a, uf);
        c.nearm("inverse_history", ui, uf, 1e-6 * sc);
        if (n >= 3)
        {
            Acc a3;
            d.ProjectedForwardDynamics(con, s, ui, a3);
            c.nearm("inverse_dynamics", Eigen::MatrixXd(a3.toCoordinateAcceleration()), Eigen::MatrixXd(dd), 1e-4 * sc);
        }
        VJ ug, ugf;
        d.ProjectedInverseDynamicsNoGravity(con, s, a, ug);
        fresh.ProjectedInverseDynamicsNoGravity(con, s, a, ugf);
        c.nearm("inverse_nograv_history", ug, ugf, 1e-6 * sc);
        c.sig.m(dd);
    }
    c.cfg = "contacts=" + hist;
}

SCENARIO(constraint_jacobian)
{
    ConstraintJacobian<Kin, 12, NJ> J;
    std::string hist;
    for (int rep = 0; rep < 3; ++rep)
    {
        J.ee_indices_.clear();
        for (int ee = 0; ee < 4; ++ee)
        {
            J.eeInContact_[ee] = c.rng.coin(0.7);
            if (J.eeInContact_[ee])
                J.ee_indices_.push_back(ee);
        }
        State s = state(c);
        J.updateState(s);
        Kin kin;
        const double h = 1e-5;
        for (int ee = 0; ee < 4; ++ee)
        {
            Eigen::Matrix<double, 3, 18> Je = J.J().block<3, 18>(3 * ee, 0), dJe = J.dJdt().block<3, 18>(3 * ee, 0);
            if (!J.eeInContact_[ee])
            {
                c.nearm("no_contact", Eigen::MatrixXd(Je), Eigen::MatrixXd(Eigen::MatrixXd::Zero(3, 18)), 0);
                c.nearm("no_contact", Eigen::MatrixXd(dJe), Eigen::MatrixXd(Eigen::MatrixXd::Zero(3, 18)), 0);
                continue;
            }
            c.nearm("velocity", V3(Je * s.toCoordinateVelocity()), V3(kin.getEEVelocityInBase(ee, s).toImplementation()), 1e-8);
            ConstraintJacobian<Kin, 12, NJ> Jf, Jb;
            Jf.ee_indices_ = Jb.ee_indices_ = J.ee_indices_;
            Jf.eeInContact_ = Jb.eeInContact_ = J.eeInContact_;
            State f = s, b = s;
            f.jointPositions() += h * s.jointVelocities();
            b.jointPositions() -= h * s.jointVelocities();
            Jf.updateState(f);
            Jb.updateState(b);
            Eigen::MatrixXd num = (Jf.J() - Jb.J()).block<3, 18>(3 * ee, 0) / (2 * h);
            c.nearm("derivative", Eigen::MatrixXd(dJe), num, 1e-6);
        }
        ConstraintJacobian<Kin, 12, NJ>::jacobian_t nd;
        J.getJacobianOriginDerivativeNumdiff(s, nd);
        c.nearm("numdiff", Eigen::MatrixXd(nd), Eigen::MatrixXd(J.dJdt()), 1e-4);
        // projector onto the motions that keep the feet in place
        Eigen::MatrixXd P = J.P(), Jm = J.J();
        c.nearm("projector", Eigen::MatrixXd(P * P), P, 1e-6);
        c.nearm("projector_null", Eigen::MatrixXd(Jm * P), Eigen::MatrixXd(Eigen::MatrixXd::Zero(12, 18)), 1e-6);
        c.near("projector_rank", P.trace(), 18.0 - 3.0 * J.ee_indices_.size(), 1e-6);
        c.sig.m(Jm);
        // weighted right inverse (all feet in contact: J has full row rank), SVD inverse, cleared block
        ConstraintJacobian<Kin, 12, NJ> Jw, Jv;
        Jw.ee_indices_ = Jv.ee_indices_ = J.ee_indices_;
        Jw.eeInContact_ = Jv.eeInContact_ = J.eeInContact_;
        Eigen::Matrix<double, 18, 18> W = Eigen::Matrix<double, 18, 18>::Identity();
        for (int i = 0; i < 18; ++i)
            W(i, i) = c.rng.uni(0.5, 2);
        Jw.updateState(s, W);
        Jv.updateState(s);
        Eigen::MatrixXd inv = Jw.JdagerLDLT(), sv = Jv.JdagerSVD();
        c.nearm("svd_inverse", Eigen::MatrixXd(Jm * sv * Jm), Jm, 1e-6);
        c.nearm("svd_inverse_symmetric", Eigen::MatrixXd(sv * Jm), Eigen::MatrixXd((sv * Jm).transpose()), 1e-6);
        if (J.ee_indices_.size() == 4)
        {
            c.nearm("weighted_inverse", Eigen::MatrixXd(Jm * inv), Eigen::MatrixXd(Eigen::MatrixXd::Identity(12, 12)), 1e-6);
            Eigen::MatrixXd WiJ = W.inverse() * inv, Pr = Eigen::MatrixXd::Identity(18, 18) - sv * Jm;
            c.nearm("weighted_inverse_range", Eigen::MatrixXd(Pr * WiJ), Eigen::MatrixXd(Eigen::MatrixXd::Zero(18, 12)), 1e-6);
        }
        const int z = (int)(c.rng.next() % 4);
        J.SetBlockZero(3 * z);
        Eigen::MatrixXd Jz = Jm;
        Jz.middleRows(3 * z, 3).setZero();
        c.nearm("cleared_block", Eigen::MatrixXd(J.J()), Jz, 0);
    }
    // point Jacobians in the inertial frame
    State s = state(c);
    const M3 R = rot(s);
    V3 r = c.rng.mat<3, 1>();
    Eigen::Matrix<double, 6, NJ> Jb = c.rng.mat<6, NJ>(), dJb = c.rng.mat<6, NJ>();
    Eigen::Matrix<double, 6, 18> Ji, dJi;
    FrameJacobian<NJ>::FromBaseJacobianToInertiaJacobian(R, r, Jb, Ji);
    V18 v = s.toCoordinateVelocity();
    V3 w = v.head<3>(), vl = v.segment<3>(3);
    VJ qd = v.tail<NJ>();
    c.nearm("frame_angular", V3((Ji * v).head<3>()), V3(R * (w + Jb.topRows<3>() * qd)), 1e-9);
    c.nearm("frame_linear", V3((Ji * v).tail<3>()), V3(R * (vl + w.cross(r) + Jb.bottomRows<3>() * qd)), 1e-9);
    FrameJacobian<NJ>::FromBaseJacobianDevToInertiaJacobianDev(v, R, r, Jb, dJb, dJi);
    const double h = 1e-5;
    auto at = [&](double t) {
        Eigen::Matrix<double, 6, 18> o;
        M3 Rt = R * Eigen::AngleAxisd(t * w.norm(), w.normalized()).toRotationMatrix();
        FrameJacobian<NJ>::FromBaseJacobianToInertiaJacobian(Rt, V3(r + t * Jb.bottomRows<3>() * qd), Eigen::Matrix<double, 6, NJ>(Jb + t * dJb), o);
        return o;
    };
    c.nearm("frame_derivative", Eigen::MatrixXd(dJi), Eigen::MatrixXd((at(h) - at(-h)) / (2 * h)), 1e-6);
}

#endif

typedef EEContactModel<Kin> CM;
static V3 contactForce(const V3& pos, const V3& vel, double k, double d, double al, double an, double z0, CM::VELOCITY_SMOOTHING sm)
{
    const double z = pos(2);
    if (sm == CM::NONE && z > 0)
        return V3::Zero();
    V3 f = -d * vel;
    const double a = z * al;
    if (sm == CM::SIGMOID)
        f *= 1 / (1 + std::exp(a));
    if (sm == CM::TANH)
        f *= 0.5 * std::tanh(-0.5 * a) + 0.5;
    if (sm == CM::ABS)
        f *= 0.5 * -a / (1 + std::fabs(a)) + 0.5;
    const double p = z - z0;
    if (an > 0)
        f(2) += k * std::exp(-an * p);
    else if (p <= 0)
        f(2) -= k * p;
    return f;
}

#if PART == 3
SCENARIO_W(contact_model, 2)
{
    auto kin = std::make_shared<Kin>();
    const double k = c.rng.uni(100, 5000), d = c.rng.uni(10, 500), al = c.rng.uni(1, 100);
    const double an = c.rng.coin() ? c.rng.uni(1, 30) : -1, z0 = c.rng.coin() ? 0.0 : c.rng.uni(-0.02, 0.02);
    const CM::VELOCITY_SMOOTHING sm = CM::VELOCITY_SMOOTHING(c.rng.in(0, 3));
    c.cfg = "smoothing=" + mon::str(int(sm)) + " exp=" + mon::str(an > 0) + " z0=" + mon::str(z0);
    CM m(k, d, al, an, z0, sm, kin);
    CM::ActiveMap act;
    act.fill(true);
    if (c.rng.coin())
    {
        for (auto& a : act) a = c.rng.coin(0.6);
        m.setActiveEE(act);
    }
    std::unique_ptr<CM> cl(m.clone());
    CM m2(1, 2, 3, 4, 5, sm, kin);
    m2.k() = k;
    m2.d() = d;
    m2.alpha() = al;
    m2.alpha_n() = an;
    m2.zOffset() = z0;
    m2.smoothing() = sm;
    m2.setActiveEE(act);
    CM* use[3] = {&m, cl.get(), &m2};
    for (int rep = 0; rep < 4; ++rep)
    {
        State s = state(c);
        for (int l = 0; l < 4; ++l) s.jointPositions().segment<3>(3 * l) = c.rng.mat<3, 1>(-0.5, 0.5);
        s.basePose().position().toImplementation()(2) = c.rng.uni(0.3, 0.9);
        s.basePose().setFromEulerAnglesXyz(V3(c.rng.mat<3, 1>(-0.3, 0.3)));
        CM::EEForcesLinear f = use[rep % 3]->computeContactForces(s);
        for (size_t ee = 0; ee < 4; ++ee)
        {
            V3 want = V3::Zero();
            if (act[ee])
                want = contactForce(kin->getEEPositionInWorld(ee, s.basePose(), s.jointPositions()).toImplementation(),
                    kin->getEEVelocityInWorld(ee, s).toImplementation(), k, d, al, an, z0, sm);
            c.nearm("force", V3(f[ee]), want, 1e-9);
            c.sig.i(want.norm() > 0);
        }
        c.sig.m(s.toStateVectorEulerXyz());
    }
    m.k() = 0;
    m.d() = 0;
    State s = state(c);
    s.basePose().position().toImplementation()(2) = -1;
    CM::EEForcesLinear f = cl->computeContactForces(s);
    for (size_t ee = 0; ee < 4; ++ee)
        if (act[ee])
            c.nearm("clone_independent", V3(f[ee]),
                contactForce(kin->getEEPositionInWorld(ee, s.basePose(), s.jointPositions()).toImplementation(),
                    kin->getEEVelocityInWorld(ee, s).toImplementation(), k, d, al, an, z0, sm),
                1e-9);
}

template <bool QUAT, bool EE>
static void system_case(Case& c)
{
    typedef FloatingBaseFDSystem<Dyn, QUAT, EE> Sys;
    const bool withModel = c.rng.coin();
    Sys sys;
    auto kin = std::make_shared<Kin>();
    if (withModel)
        sys.setContactModel(std::make_shared<CM>(2000, 100, 50, -1, 0, CM::NONE, kin));
    std::unique_ptr<Sys> cl(sys.clone());
    Dyn d;
    c.cfg = "quat=" + mon::str(QUAT) + " ee=" + mon::str(EE) + " model=" + mon::str(withModel);
    for (int rep = 0; rep < 3; ++rep)
    {
        State s = state(c);
        if (c.rng.coin())
            s.basePose().position().toImplementation()(2) = c.rng.uni(-0.2, 0.8);
        core::ControlVector<Sys::CONTROL_DIM> u = c.rng.mat<Sys::CONTROL_DIM, 1>(-50, 50);
        typename Sys::StateVector x = sys.template toStateVector<QUAT>(s), dx, dx2;
        State sb = sys.RBDStateFromVector(x);
        same(c, "state_from_vector", sb, s);
        const double t = c.rng.uni(0, 3);
        sys.computeControlledDynamics(x, t, u, dx);
        cl->computeControlledDynamics(x, t, u, dx2);
        c.nearm("clone", Eigen::MatrixXd(dx2), Eigen::MatrixXd(dx), 1e-9);
        Dyn::ExtLinkForces_t F(zero6());
        for (size_t ee = 0; ee < 4; ++ee)
        {
            V3 f = V3::Zero();
            if (withModel)
                f += contactForce(kin->getEEPositionInWorld(ee, s.basePose(), s.jointPositions()).toImplementation(),
                    kin->getEEVelocityInWorld(ee, s).toImplementation(), 2000, 100, 50, -1, 0, CM::NONE);
            if (EE)
                for (int k = 0; k < 3; ++k) f(k) += u(int(EE) * (NJ + 3 * ee + k));
            F[static_cast<Dyn::ROBCOGEN::LinkIdentifiers>(kin->getEndEffector(ee).getLinkId())] =
                kin->mapForceFromWorldToLink3d(f, s.basePose(), s.jointPositions(), ee);
        }
        Acc a;
        d.FloatingBaseForwardDynamics(s, VJ(u.template head<NJ>()), F, a);
        const double sc = 1 + a.toCoordinateAcceleration().cwiseAbs().maxCoeff();
        c.nearm("acceleration", Eigen::MatrixXd(dx.template tail<18>()), Eigen::MatrixXd(a.toCoordinateAcceleration()), 1e-8 * sc);
        c.nearm("joint_velocity", Eigen::MatrixXd(dx.segment(6 + QUAT, NJ)), Eigen::MatrixXd(s.jointVelocities()), 1e-9);
        c.nearm("base_velocity", V3(dx.segment(3 + QUAT, 3)), V3(rot(s) * s.baseLinearVelocity().toImplementation()), 1e-9);
        // orientation rate
        const double h = 1e-6;
        typename Sys::StateVector xf = x + h * dx, xb = x - h * dx;
        M3 dR = (rot(sys.RBDStateFromVector(xf)) - rot(sys.RBDStateFromVector(xb))) / (2 * h);
        const double sl = 1 + dx.template head<3>().norm();
        c.nearm("orientation_rate", dR, M3(rot(s) * skew(s.baseLocalAngularVelocity().toImplementation())), 1e-6 * sl * sl);
        // half steps of symplectic integration: positions move with the given velocity, velocities with the given position
        State s2 = state(c);
        typename Sys::StateVector x2 = sys.template toStateVector<QUAT>(s2), full;
        core::StateVector<18> v2 = x2.template tail<18>(), vdot;
        core::StateVector<18 + QUAT> p2 = x2.template head<18 + QUAT>(), pdot;
        typename Sys::StateVector mix = x;
        mix.template tail<18>() = v2;
        sys.computePdot(x, v2, u, pdot);
        cl->computeControlledDynamics(mix, t, u, full);
        c.nearm("pdot", Eigen::MatrixXd(pdot), Eigen::MatrixXd(full.template head<18 + QUAT>()), 1e-8);
        mix = x;
        mix.template head<18 + QUAT>() = p2;
        sys.computeVdot(x, p2, u, vdot);
        cl->computeControlledDynamics(mix, t, u, full);
        c.nearm("vdot", Eigen::MatrixXd(vdot), Eigen::MatrixXd(full.template tail<18>()), 1e-7);
        c.sig.m(dx);
    }
}
SCENARIO(system_euler) { system_case<false, false>(c); }
SCENARIO(system_quat) { system_case<true, false>(c); }
SCENARIO(system_euler_ee) { system_case<false, true>(c); }
SCENARIO(system_quat_ee) { system_case<true, true>(c); }

#endif

#if PART == 4
template <bool QUAT>
static void projected_case(Case& c)
{
    typedef ProjectedFDSystem<Dyn, QUAT> Sys;
    Dyn::EE_in_contact_t con(true);
    std::unique_ptr<Sys> sys(new Sys(con));
    for (int rep = 0; rep < 4; ++rep)
    {
        if (rep > 0)
        {
            for (int ee = 0; ee < 4; ++ee) con[ee] = c.rng.coin();
            sys->setEEInContact(con);
        }
        State s = state(c);
        core::ControlVector<NJ> u = c.rng.mat<NJ, 1>(-50, 50);
        typename Sys::StateVector x, dx;
        FloatingBaseFDSystem<Dyn, QUAT, false> conv;
        x = conv.template toStateVector<QUAT>(s);
        sys->computeControlledDynamics(x, 0.3, u, dx);
        Dyn d;
        Acc a;
        d.ProjectedForwardDynamics(con, s, u, a);
        const double sc = 1 + a.toCoordinateAcceleration().cwiseAbs().maxCoeff();
        c.nearm("acceleration", Eigen::MatrixXd(dx.template tail<18>()), Eigen::MatrixXd(a.toCoordinateAcceleration()), 1e-6 * sc);
        Eigen::MatrixXd top = QUAT ? Eigen::MatrixXd(a.toStateUpdateVectorQuaternion(s).head(19)) : Eigen::MatrixXd(a.toStateUpdateVectorEulerXyz(s).head(18));
        c.nearm("rates", Eigen::MatrixXd(dx.head(18 + QUAT)), top, 1e-8);
        c.sig.m(dx);
    }
}
SCENARIO(projected_euler) { projected_case<false>(c); }
SCENARIO(projected_quat) { projected_case<true>(c); }

SCENARIO(linearizer)
{
    typedef FloatingBaseFDSystem<Dyn, false, false> Sys;
    auto sys = std::make_shared<Sys>();
    RbdLinearizer<Sys> lin0(sys, c.rng.coin());
    std::unique_ptr<RbdLinearizer<Sys>> cl;
    RbdLinearizer<Sys>* lin = &lin0;
    if (c.rng.coin())
    {
        cl.reset(lin0.clone());
        lin = cl.get();
    }
    Sys ref;
    for (int rep = 0; rep < 2; ++rep)
    {
        State s = state(c);
        core::StateVector<36> x = s.toStateVectorEulerXyz();
        core::ControlVector<NJ> u = c.rng.mat<NJ, 1>(-20, 20);
        Eigen::MatrixXd A, B;
        if (c.rng.coin())
        {
            A = lin->getDerivativeState(x, u, 0.1);
            B = lin->getDerivativeControl(x, u, 0.1);
        }
        else
        {
            B = lin->getDerivativeControl(x, u, 0.1);
            A = lin->getDerivativeState(x, u, 0.1);
        }
        Eigen::MatrixXd An(36, 36), Bn(36, NJ);
        const double h = 1e-5;
        for (int i = 0; i < 36; ++i)
        {
            core::StateVector<36> xp = x, xm = x, fp, fm;
            xp(i) += h;
            xm(i) -= h;
            ref.computeControlledDynamics(xp, 0.1, u, fp);
            ref.computeControlledDynamics(xm, 0.1, u, fm);
            An.col(i) = (fp - fm) / (2 * h);
        }
        for (int i = 0; i < NJ; ++i)
        {
            core::ControlVector<NJ> up = u, um = u;
            up(i) += 1;
            um(i) -= 1;
            core::StateVector<36> fp, fm;
            ref.computeControlledDynamics(x, 0.1, up, fp);
            ref.computeControlledDynamics(x, 0.1, um, fm);
            Bn.col(i) = (fp - fm) / 2;
        }
        c.nearm("A_kinematic", Eigen::MatrixXd(A.topRows(18)), Eigen::MatrixXd(An.topRows(18)), 1e-5);
        c.nearm("A_dynamic", Eigen::MatrixXd(A.bottomRows(18)), Eigen::MatrixXd(An.bottomRows(18)), 1e-3);
        c.nearm("B", B, Bn, 1e-6);
        c.sig.m(A);
    }
}

SCENARIO(base_controller)
{
    State des = state(c);
    V6 kp = c.rng.mat<6, 1>(0, 50), kd = c.rng.mat<6, 1>(0, 10);
    auto dyn = std::make_shared<Dyn>();
    IDControllerFB<Dyn> con(dyn);
    if (c.rng.coin())
        con = IDControllerFB<Dyn>(dyn, des, kp, kd);
    else
    {
        con.setDesiredState(des);
        con.setPoseGains(kp);
        con.setTwistGains(kd);
    }
    State s = state(c);
    const M3 R = rot(s), Rd = rot(des);
    Acc a = con.computeDesiredAcceleration(s);
    V6 want;
    kindr::EulerAnglesXyz<double> e((kindr::RotationMatrix<double>(M3(R.transpose() * Rd))));
    want.head<3>() = kp.head<3>().cwiseProduct(e.toImplementation());
    want.tail<3>() = R.transpose() * kp.tail<3>().cwiseProduct(des.basePose().position().toImplementation() - s.basePose().position().toImplementation());
    want += kd.cwiseProduct(des.baseVelocities().getVector() - s.baseVelocities().getVector());
    c.nearm("acceleration", a.base().getVector6d(), want, 1e-8);
    c.nearm("joints", VJ(a.joints().getAcceleration()), VJ(VJ::Zero()), 0);
    Dyn::EE_in_contact_t all(true);
    VJ u = con.computeTorque(s, all, true), u0 = con.computeTorque(s, all, false), w, w0;
    Dyn d;
    d.ProjectedInverseDynamics(all, s, a, w);
    d.ProjectedInverseDynamicsNoGravity(all, s, a, w0);
    c.nearm("torque", u, w, 1e-6);
    c.nearm("torque_nograv", u0, w0, 1e-6);
    c.sig.m(u);
}

SCENARIO(operational_model)
{
    auto rcg = std::make_shared<HyQ::RobCoGenContainer>();
    std::array<EndEffector<NJ>, 4> ees;
    for (int i = 0; i < 4; ++i) ees[i].setLinkId(HyQ::RobCoGenContainer::UTILS::eeIdToLinkId(i));
    OperationalModelRBD<HyQ::RobCoGenContainer, 4> m(rcg, ees);
    Dyn d;
    for (int rep = 0; rep < 2; ++rep)
    {
        State s = state(c);
        m.update(s);
        Eigen::MatrixXd M = m.M(), Mi = m.MInverse();
        c.nearm("inverse", Eigen::MatrixXd(M * Mi), Eigen::MatrixXd(Eigen::MatrixXd::Identity(18, 18)), 1e-6);
        VJ u = c.rng.mat<NJ, 1>(-30, 30);
        Dyn::ExtLinkForces_t F(zero6());
        Acc a;
        d.FloatingBaseForwardDynamics(s, u, F, a);
        const double sc = 1 + a.toCoordinateAcceleration().cwiseAbs().maxCoeff();
        Eigen::VectorXd lhs = M * a.toCoordinateAcceleration() + Eigen::VectorXd(m.C()) + Eigen::VectorXd(m.G());
        Eigen::VectorXd rhs = Eigen::MatrixXd(m.S()).transpose() * u;
        c.nearm("equation", Eigen::MatrixXd(lhs), Eigen::MatrixXd(rhs), 1e-6 * sc);
        for (int ee = 0; ee < 4; ++ee)
            c.nearm("contact_jacobian", V3(m.Jc(ee) * s.toCoordinateVelocity()),
                V3(d.kinematics().getEEVelocityInWorld(ee, s).toImplementation()), 1e-8);
        c.sig.m(M);
    }
}

#endif

MON_MAIN
