// Quadrotor equations and their linearisation, analytic inverse kinematics, generated derivative code of HyA/HyQ
#include "mon.hpp"
#include <Eigen/Dense>
#ifdef C26CG
#include <ct/core/core.h>
#include <ct/models/HyA/codegen/HyALinearizedForward.h>
#include <ct/models/HyA/codegen/HyALinearizedReverse.h>
#include <ct/models/HyA/codegen/HyAInverseDynJacForward.h>
#include <ct/models/HyA/codegen/HyAInverseDynJacReverse.h>
#include <ct/models/HyA/codegen/HyAInverseDynHessian.h>
#include <ct/models/InvertedPendulum/codegen/InvertedPendulumActDynLinearizedForward.h>
#include <ct/models/HyA/generated/traits.h>
#include <ct/models/InvertedPendulum/generated/traits.h>
#else
#include <ct/models/Quadrotor/QuadrotorLinear.hpp>
#define IKFAST_HAS_LIBRARY
#define IKFAST_NAMESPACE hya_ik
#include <ikfast.h>
namespace irb4600_ik {
bool ComputeIk(const double*, const double*, const double*, ikfast::IkSolutionListBase<double>&);
void ComputeFk(const double*, double*, double*);
int GetNumFreeParameters();
int GetNumJoints();
}
#endif
using namespace mon;
#ifndef C26CG
typedef Eigen::Matrix<double, 12, 1> V12;
typedef Eigen::Matrix<double, 4, 1> V4;
static void quadState(Rng& r, V12& x, V4& u)
{
    for (int i = 0; i < 12; i++) x[i] = r.uni(-3, 3);
    x[4] = r.uni(-1.3, 1.3);   // the Euler-angle singularity at +-pi/2 is excluded
    if (r.in(0, 9) == 0) x.setZero();
    for (int i = 0; i < 4; i++) u[i] = r.uni(-10, 10);
    if (r.in(0, 3) == 0) u << 0.546 * 9.81, 0, 0, 0;
}
SCENARIO(quad_lin)
{
    Rng& r = c.rng;
    ct::models::Quadrotor sys;
    ct::models::QuadrotorLinear lin;
    for (int k = 0; k < 3; k++)
    {
        V12 x;
        V4 u;
        quadState(r, x, u);
        c.sig.m(x);
        ct::core::StateVector<12> d1, d2, X = x;
        ct::core::ControlVector<4> U = u;
        Eigen::Matrix<double, 12, 12> A = lin.getDerivativeState(X, U, 0.), An;
        Eigen::Matrix<double, 12, 4> B = lin.getDerivativeControl(X, U, 0.), Bn;
        for (int i = 0; i < 12; i++)
        {
            ct::core::StateVector<12> xp = x, xm = x;
            double h = 1e-5;
            xp[i] += h, xm[i] -= h;
            sys.computeControlledDynamics(xp, 0., U, d1);
            sys.computeControlledDynamics(xm, 0., U, d2);
            An.col(i) = (d1 - d2) / (2 * h);
        }
        for (int i = 0; i < 4; i++)
        {
            ct::core::ControlVector<4> up = u, um = u;
            double h = 1e-3;
            up[i] += h, um[i] -= h;
            sys.computeControlledDynamics(X, 0., up, d1);
            sys.computeControlledDynamics(X, 0., um, d2);
            Bn.col(i) = (d1 - d2) / (2 * h);
        }
        c.nearm("A is the state derivative of the quadrotor dynamics", A, An, 1e-6);
        c.nearm("B is the input derivative of the quadrotor dynamics", B, Bn, 1e-7);
    }
}
static Eigen::Matrix3d E(const V12& x)
{
    using namespace Eigen;
    Matrix3d Rz = AngleAxisd(x[5], Vector3d::UnitZ()).toRotationMatrix(), Ry = AngleAxisd(x[4], Vector3d::UnitY()).toRotationMatrix();
    Matrix3d e;
    e.col(0) = Rz.transpose() * Ry.transpose() * Vector3d::UnitX();
    e.col(1) = Rz.transpose() * Vector3d::UnitY();
    e.col(2) = Vector3d::UnitZ();
    return e;
}
SCENARIO(quad_physics)
{
    using namespace Eigen;
    Rng& r = c.rng;
    ct::models::Quadrotor sys;
    V12 x;
    V4 u;
    quadState(r, x, u);
    c.sig.m(x);
    ct::core::StateVector<12> d, X = x;
    ct::core::ControlVector<4> U = u;
    sys.computeControlledDynamics(X, 0., U, d);
    c.nearm("position derivatives", V12(d).head<6>(), x.tail<6>(), 1e-14);
    Matrix3d R = (AngleAxisd(x[3], Vector3d::UnitX()) * AngleAxisd(x[4], Vector3d::UnitY()) * AngleAxisd(x[5], Vector3d::UnitZ())).toRotationMatrix();
    const double m = ct::models::quadrotor::mQ, I = ct::models::quadrotor::Thxxyy, Iz = ct::models::quadrotor::Thzz;
    c.nearm("Newton", Vector3d(d.segment<3>(6)), Vector3d(R.col(2) * u[0] / m - Vector3d(0, 0, 9.81)), 1e-10);
    // Euler: I wd + w x I w = M in body axes
    Matrix3d In = Vector3d(I, I, Iz).asDiagonal();
    Vector3d w = E(x) * x.tail<3>();
    double h = 1e-5;
    V12 xp = x + h * V12(d), xm = x - h * V12(d);
    Matrix3d Ed = (E(xp) - E(xm)) / (2 * h);
    Vector3d wd = E(x) * d.segment<3>(9) + Ed * x.tail<3>();
    double sc = (1 + d.norm()) * I;
    c.nearm("Euler", Vector3d((In * wd + w.cross(In * w) - u.tail<3>()) / sc), Vector3d::Zero(), 1e-6);
}
typedef void (*FkF)(const double*, double*, double*);
typedef bool (*IkF)(const double*, const double*, const double*, ikfast::IkSolutionListBase<double>&);
static double wrap(double a) { return std::remainder(a, 2 * M_PI); }
static void ik(Case& c, FkF fk, IkF inv, const double* lo, const double* hi)
{
    typedef Eigen::Matrix<double, 3, 3, Eigen::RowMajor> Rm;
    Rng& r = c.rng;
    double q[6];
    for (int i = 0; i < 6; i++) q[i] = r.uni(lo[i], hi[i]);
    Eigen::Vector3d p, p2;
    Rm R, R2;
    fk(q, p.data(), R.data());
    for (int i = 0; i < 6; i++) c.sig.d(q[i]);
    c.nearm("forward kinematics gives a rotation", Eigen::Matrix3d(R * R.transpose()), Eigen::Matrix3d(Eigen::Matrix3d::Identity()), 1e-6);
    // geometric consistency of forward kinematics: velocity of the frame is a rigid motion about one fixed axis per joint
    // exclude near-singular arm configurations, where the generating solution may be degenerate
    Eigen::Matrix<double, 6, 6> J;
    for (int i = 0; i < 6; i++)
    {
        double a[6], b[6];
        std::copy(q, q + 6, a), std::copy(q, q + 6, b);
        a[i] += 1e-6, b[i] -= 1e-6;
        Eigen::Vector3d pa, pb;
        Rm Ra, Rb;
        fk(a, pa.data(), Ra.data());
        fk(b, pb.data(), Rb.data());
        Eigen::Matrix3d W = (Ra - Rb) / 2e-6 * R.transpose();
        J.col(i) << W(2, 1), W(0, 2), W(1, 0), (pa - pb) / 2e-6;
        c.near("joint axis is a unit vector", Eigen::Vector3d(W(2, 1), W(0, 2), W(1, 0)).norm(), 1., 1e-5);
    }
    double sv = Eigen::JacobiSVD<Eigen::Matrix<double, 6, 6>>(J).singularValues().minCoeff();
    ikfast::IkSolutionList<double> sols;
    bool ok = inv(p.data(), R.data(), nullptr, sols);
    bool found = false;
    double best = 1e9;
    for (size_t s = 0; s < sols.GetNumSolutions(); s++)
    {
        double o[6];
        sols.GetSolution(s).GetSolution(o, nullptr);
        fk(o, p2.data(), R2.data());
        double ep = (p2 - p).norm(), er = (R2 - R).norm();
        // solutions of near-singular poses lose digits in the generated algebra
        if (sv > 0.05) c.check("every solution reproduces the pose", ep < 1e-5 && er < 1e-5, "position error " + std::to_string(ep) + " rotation error " + std::to_string(er));
        double e = 0;
        for (int i = 0; i < 6; i++) e = std::max(e, std::abs(wrap(o[i] - q[i])));
        best = std::min(best, e);
        if (e < 1e-3) found = true;
    }
    if (sv > 0.05)
    {
        c.nontrivial = true;
        c.check("reachable pose is solved", ok && sols.GetNumSolutions() > 0);
        c.check("generating joints are among the solutions", found, "closest differs by " + std::to_string(best));
    }
    // the same pose queried again gives the same number of solutions
    ikfast::IkSolutionList<double> again;
    inv(p.data(), R.data(), nullptr, again);
    c.check("repeatable", again.GetNumSolutions() == sols.GetNumSolutions());
    // out of reach: no solution may be claimed that does not reproduce the pose
    Eigen::Vector3d far = p + 20 * r.mat<3, 1>();
    ikfast::IkSolutionList<double> none;
    if ((far - p).norm() > 8)
    {
        bool o = inv(far.data(), R.data(), nullptr, none);
        c.check("unreachable pose is not solved", !o && none.GetNumSolutions() == 0);
    }
}
SCENARIO(ik_HyA)
{
    static const double lo[] = {-3.1416, -0.7679, -1.6406, 0, -2.0944, -0.5236}, hi[] = {0.5236, 0.8552, 0.0698, 2.2689, 1.5708, 1.5708};
    ik(c, hya_ik::ComputeFk, hya_ik::ComputeIk, lo, hi);
}
SCENARIO(ik_Irb4600)
{
    static const double lo[] = {-3.1, -1.5, -3.1, -3.1, -2.1, -3.1}, hi[] = {3.1, 2.6, 1.3, 3.1, 2.1, 3.1};
    ik(c, irb4600_ik::ComputeFk, irb4600_ik::ComputeIk, lo, hi);
}
#else
typedef Eigen::Matrix<double, 6, 1> V6;
template <class Tr> struct Rob
{
    typename Tr::MotionTransforms mt;
    typename Tr::InertiaProperties in;
    typename Tr::FwdDynEngine fdE{in, mt};
    typename Tr::InvDynEngine idE{in, mt};
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
};
typedef iit::ct_HyA::tpl::Traits<double> HyA;
SCENARIO(cg_HyA_lin)
{
    Rng& r = c.rng;
    std::unique_ptr<Rob<HyA>> R(new Rob<HyA>);
    ct::models::HyA::HyALinearizedForward f;
    ct::models::HyA::HyALinearizedReverse v;
    for (int k = 0; k < 2; k++)
    {
        ct::core::StateVector<12> x;
        ct::core::ControlVector<6> u;
        for (int i = 0; i < 6; i++) x[i] = r.uni(-3, 3), x[6 + i] = r.uni(-2, 2), u[i] = r.uni(-20, 20);
        if (r.in(0, 5) == 0) x.setZero();
        c.sig.m(x);
        Eigen::MatrixXd Af = f.getDerivativeState(x, u, 0.), Bf = f.getDerivativeControl(x, u, 0.);
        Eigen::MatrixXd Ar = v.getDerivativeState(x, u, 0.), Br = v.getDerivativeControl(x, u, 0.);
        c.nearm("forward and reverse mode A", Af, Ar, 1e-8);
        c.nearm("forward and reverse mode B", Bf, Br, 1e-8);
        Eigen::MatrixXd An(12, 12), Bn(12, 6);
        auto ode = [&](const Eigen::VectorXd& X, const Eigen::VectorXd& U) {
            V6 q = X.head<6>(), qd = X.tail<6>(), t = U, a;
            R->fdE.fd(a, q, qd, t);
            Eigen::VectorXd d(12);
            d << qd, a;
            return d;
        };
        for (int i = 0; i < 18; i++)
        {
            Eigen::VectorXd X = x, Y = x, U = u, W = u;
            double h = i < 12 ? 1e-5 : 1e-2;
            if (i < 12) X[i] += h, Y[i] -= h; else U[i - 12] += h, W[i - 12] -= h;
            Eigen::VectorXd d = (ode(X, U) - ode(Y, W)) / (2 * h);
            if (i < 12) An.col(i) = d; else Bn.col(i - 12) = d;
        }
        c.nearm("generated A is the derivative of the forward dynamics", Af, An, 1e-5);
        c.nearm("generated B is the derivative of the forward dynamics", Bf, Bn, 1e-6);
    }
}
SCENARIO(cg_HyA_id)
{
    Rng& r = c.rng;
    std::unique_ptr<Rob<HyA>> R(new Rob<HyA>);
    ct::models::HyA::HyAInverseDynJacForward f;
    ct::models::HyA::HyAInverseDynJacReverse v;
    ct::models::HyA::HyAInverseDynHessian hs;
    Eigen::VectorXd x(12), w(6);
    for (int i = 0; i < 6; i++) x[i] = r.uni(-3, 3), x[6 + i] = r.uni(-2, 2), w[i] = r.uni(-2, 2);
    if (r.in(0, 5) == 0) x.setZero();
    if (r.in(0, 3) == 0) w.setZero(), w[r.in(0, 5)] = 1;
    c.sig.m(x);
    auto id = [&](const Eigen::VectorXd& X) {
        V6 q = X.head<6>(), qd = X.tail<6>(), z = V6::Zero(), t;
        R->idE.id(t, q, qd, z);
        return t;
    };
    Eigen::MatrixXd Jn(6, 12), Jf = f.jacobian(x), Jr = v.jacobian(x), Hn(12, 12);
    for (int i = 0; i < 12; i++)
    {
        Eigen::VectorXd X = x, Y = x;
        X[i] += 1e-5, Y[i] -= 1e-5;
        Jn.col(i) = (id(X) - id(Y)) / 2e-5;
        Hn.col(i) = (Eigen::MatrixXd(f.jacobian(X)).transpose() * w - Eigen::MatrixXd(f.jacobian(Y)).transpose() * w) / 2e-5;
    }
    c.nearm("forward and reverse mode Jacobian", Jf, Jr, 1e-9);
    c.nearm("generated Jacobian is the derivative of the inverse dynamics", Jf, Jn, 1e-6);
    Eigen::MatrixXd H = hs.hessian(x, w);
    c.nearm("generated Hessian is the derivative of the Jacobian", H, Hn, 1e-6);
    // repeated evaluation of one object does not depend on what was evaluated before
    c.nearm("repeatable", Eigen::MatrixXd(f.jacobian(x)), Jf, 1e-12);
}
#endif
MON_MAIN
