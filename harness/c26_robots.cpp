// Generated rigid-body models: transforms, Jacobians, inverse and forward dynamics and joint-space inertia of
// one robot must describe the same mechanism.
#include "mon.hpp"
#include "c26_lists.hpp"
#include <Eigen/Dense>
#include <ct/models/QuadrotorWithLoad/generated/jacobians.h>
#include <ct/models/HyA/generated/traits.h>
#include <ct/models/HyA/generated/miscellaneous.h>
#include <ct/models/HyQ/generated/traits.h>
#include <ct/models/HyQ/generated/miscellaneous.h>
#include <ct/models/InvertedPendulum/generated/traits.h>
#include <ct/models/DoubleInvertedPendulum/generated/traits.h>
#include <ct/models/QuadrotorWithLoad/generated/traits.h>
using namespace mon;
typedef Eigen::Matrix<double, 4, 4> M4;
typedef Eigen::Matrix<double, 6, 6> M6;
typedef Eigen::Matrix<double, 6, 1> V6;
typedef Eigen::Matrix3d M3;
static M3 skew(const Eigen::Vector3d& v) { M3 m; m << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0; return m; }
// spatial transforms A_X_B from the homogeneous one
static M6 motionOf(const M4& T)
{
    M3 R = T.topLeftCorner<3, 3>();
    M6 X = M6::Zero();
    X.topLeftCorner<3, 3>() = R;
    X.bottomRightCorner<3, 3>() = R;
    X.bottomLeftCorner<3, 3>() = skew(T.topRightCorner<3, 1>()) * R;
    return X;
}
static M6 forceOf(const M4& T)
{
    M3 R = T.topLeftCorner<3, 3>();
    M6 X = M6::Zero();
    X.topLeftCorner<3, 3>() = R;
    X.bottomRightCorner<3, 3>() = R;
    X.topRightCorner<3, 3>() = skew(T.topRightCorner<3, 1>()) * R;
    return X;
}
template <class J>
static J joints(Case& c, Rng& r)
{
    J q;
    int mode = r.in(0, 5);
    for (int i = 0; i < q.size(); i++)
        q[i] = mode == 0 ? 0. : mode == 1 ? 1.5707963267948966 * r.in(-2, 2) : r.uni(-3.2, 3.2);
    return q;
}
template <class Tr> struct Rob
{
    typename Tr::HomogeneousTransforms ht;
    typename Tr::MotionTransforms mt;
    typename Tr::ForceTransforms ft;
    typename Tr::Jacobians ja;
    typename Tr::InertiaProperties in;
    typename Tr::JSIM H{in, ft};
    typename Tr::FwdDynEngine fdE{in, mt};
    typename Tr::InvDynEngine idE{in, mt};
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
};
#define ONE(n)                                                                      \
    {                                                                               \
        M4 T = R.ht.n(q);                                                           \
        M6 X = R.mt.n(q), F = R.ft.n(q);                                            \
        c.nearm("homogeneous " #n " is rigid", T.template topLeftCorner<3, 3>() * T.template topLeftCorner<3, 3>().transpose(), M3::Identity(), 1e-3); \
        c.nearm("motion " #n, X, motionOf(T), 1e-9);                                \
        c.nearm("force " #n, F, forceOf(T), 1e-9);                                  \
        c.check("bottom row " #n, T(3, 0) == 0 && T(3, 1) == 0 && T(3, 2) == 0 && T(3, 3) == 1); \
    }
#define PAIR(a, b)                                                                          \
    {                                                                                       \
        c.nearm(#a " inverse of " #b, M4(M4(R.ht.a(q)) * M4(R.ht.b(q))), M4::Identity(), 1e-3); \
    }
#define TRI(n, a, b) c.nearm(#n " = " #a " * " #b, M4(R.ht.n(q)), M4(M4(R.ht.a(q)) * M4(R.ht.b(q))), 1e-3);
#define JAC(j, h, off, cols)                                                                    \
    {                                                                                           \
        Eigen::Matrix<double, 6, cols> J = R.ja.j(q), N;                                        \
        M4 T0 = R.ht.h(q);                                                                      \
        for (int i = 0; i < cols; i++)                                                          \
        {                                                                                       \
            auto qp = q, qm = q;                                                                \
            qp[off + i] += 1e-6, qm[off + i] -= 1e-6;                                           \
            M4 D = (M4(R.ht.h(qp)) - M4(R.ht.h(qm))) / 2e-6;                                    \
            M3 W = D.topLeftCorner<3, 3>() * T0.topLeftCorner<3, 3>().transpose();              \
            N.col(i) << W(2, 1), W(0, 2), W(1, 0), D(0, 3), D(1, 3), D(2, 3);                   \
        }                                                                                       \
        c.nearm("Jacobian " #j, J, N, 2e-3);                                                    \
        R.ht.h(q);                                                                              \
    }
#define KINBODY(ROB, NS)                                                                   \
    static void kinbody_##ROB(Case& c, Rng& r, Rob<iit::NS::tpl::Traits<double>>& R)       \
    {                                                                                      \
        typedef iit::NS::tpl::Traits<double>::JointState J;                                \
        for (int k = 0; k < 2; k++)                                                        \
        {                                                                                  \
            J q = joints<J>(c, r);                                                         \
            c.sig.m(q);                                                                    \
            TR_##ROB(ONE) INV_##ROB(PAIR) TRI_##ROB(TRI) JAC_##ROB(JAC)                    \
        }                                                                                  \
    }                                                                                      \
    SCENARIO(kin_##ROB)                                                                    \
    {                                                                                      \
        std::unique_ptr<Rob<iit::NS::tpl::Traits<double>>> R(new Rob<iit::NS::tpl::Traits<double>>); \
        kinbody_##ROB(c, c.rng, *R);                                                           \
    }
KINBODY(HyA, ct_HyA)
KINBODY(HyQ, HyQ)
KINBODY(InvertedPendulum, ct_InvertedPendulum)
KINBODY(DoubleInvertedPendulum, ct_DoubleInvertedPendulum)
KINBODY(QuadrotorWithLoad, ct_quadrotor)

template <class Tr> struct Ext
{
    typename Tr::FwdDynEngine::ExtForces f;
    Ext(Rng& r, int mode)
    {
        for (int i = 0; i < Tr::links_count; i++)
        {
            V6 w = V6::Zero();
            if (mode == 1 || (mode == 2 && r.coin())) w = r.mat<6, 1>(-10, 10);
            f[Tr::orderedLinkIDs()[i]] = w;
        }
    }
};
template <class Tr> static void inertia(Case& c, const Eigen::MatrixXd& H)
{
    c.nearm("joint-space inertia symmetric", H, H.transpose(), 1e-9);
    Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(H);
    double e = es.eigenvalues().minCoeff();
    if (e < -0.004) c.viol("joint-space inertia far from positive definite", "smallest eigenvalue " + std::to_string(e));
    else c.check("joint-space inertia positive definite", e > 0, "smallest eigenvalue " + std::to_string(e));
}
// fixed base
template <class Tr> static void fixedBase(Case& c, Rng& r)
{
    typedef typename Tr::JointState J;
    const int n = Tr::joints_count;
    std::unique_ptr<Rob<Tr>> R(new Rob<Tr>);
    for (int k = 0; k < 3; k++)
    {
        J q = joints<J>(c, r), qd, tau, qdd, t2, g, cc;
        for (int i = 0; i < n; i++) qd[i] = r.uni(-3, 3), tau[i] = r.uni(-50, 50);
        if (r.in(0, 4) == 0) qd.setZero();
        Ext<Tr> e(r, r.in(0, 2));
        c.sig.m(q), c.sig.m(tau);
        Eigen::MatrixXd H = Eigen::MatrixXd(R->H.update(q));
        inertia<Tr>(c, H);
        R->fdE.fd(qdd, q, qd, tau, e.f);
        double sc = std::max(1., H.norm() * (1 + qdd.norm()));
        R->idE.id(t2, q, qd, qdd, e.f);
        c.nearm("inverse dynamics of the forward dynamics", J(t2 / sc), J(tau / sc), 1e-9);
        // columns of H from inverse dynamics
        J z = J::Zero(), t0;
        R->idE.id(t0, q, qd, z, e.f);
        Eigen::MatrixXd Hid(n, n);
        for (int i = 0; i < n; i++)
        {
            J u = J::Zero();
            u[i] = 1;
            R->idE.id(t2, q, qd, u, e.f);
            Hid.col(i) = t2 - t0;
        }
        c.nearm("inertia from inverse dynamics", H, Hid, 1e-8);
        // gravity + Coriolis + external force terms
        R->idE.G_terms(g, q);
        R->idE.C_terms(cc, q, qd);
        Ext<Tr> none(r, 0);
        R->idE.id(t0, q, qd, z, none.f);
        c.nearm("gravity and Coriolis terms sum to the bias", J(g + cc), t0, 1e-9);
        R->idE.id(t0, q, z, z, none.f);
        c.nearm("gravity term is the static torque", g, t0, 1e-9);
        J c2;
        R->idE.C_terms(c2, q, J(2 * qd));
        c.nearm("Coriolis term is quadratic in velocity", c2, J(4 * cc), 1e-9);
        // power balance: qd'(Hdot qd)/2 = qd' C
        double h = 1e-6;
        J qp = q + h * qd, qm = q - h * qd;
        Eigen::MatrixXd Hd = (Eigen::MatrixXd(R->H.update(qp)) - Eigen::MatrixXd(R->H.update(qm))) / (2 * h);
        c.near("kinetic energy balance", double(qd.dot(cc)), 0.5 * double(qd.transpose() * Hd * qd), 1e-5 * (1 + cc.norm() * qd.norm()));
        R->H.update(q);
        R->H.computeL();
        R->H.computeInverse();
        c.nearm("inverse of the inertia matrix", Eigen::MatrixXd(R->H.getInverse()) * H, Eigen::MatrixXd::Identity(n, n), 1e-8);
        // current-configuration overloads
        J a1, a2;
        R->fdE.setJointStatus(q);
        R->fdE.fd(a1, qd, tau, e.f);
        R->fdE.fd(a2, q, qd, tau, e.f);
        c.nearm("fd with preset configuration", a1, a2, 1e-12);
    }
}
SCENARIO(dyn_HyA) { fixedBase<iit::ct_HyA::tpl::Traits<double>>(c, c.rng); }
SCENARIO(dyn_InvertedPendulum) { fixedBase<iit::ct_InvertedPendulum::tpl::Traits<double>>(c, c.rng); }
SCENARIO(dyn_DoubleInvertedPendulum) { fixedBase<iit::ct_DoubleInvertedPendulum::tpl::Traits<double>>(c, c.rng); }
template <class Tr> static void floating(Case& c, Rng& r)
{
    typedef typename Tr::JointState J;
    const int n = Tr::joints_count;
    typedef Eigen::VectorXd V;
    std::unique_ptr<Rob<Tr>> R(new Rob<Tr>);
    for (int k = 0; k < 2; k++)
    {
        J q = joints<J>(c, r), qd, tau, qdd, t2;
        for (int i = 0; i < n; i++) qd[i] = r.uni(-3, 3), tau[i] = r.uni(-50, 50);
        V6 v = r.mat<6, 1>(-2, 2), g = V6::Zero(), a, w;
        if (r.in(0, 4) == 0) qd.setZero(), v.setZero();
        g.tail<3>() = r.mat<3, 1>(-8, 8);
        Ext<Tr> e(r, r.in(0, 2)), none(r, 0);
        c.sig.m(q), c.sig.m(tau);
        Eigen::MatrixXd H = Eigen::MatrixXd(R->H.update(q));
        inertia<Tr>(c, H);
        R->fdE.fd(qdd, a, v, g, q, qd, tau, e.f);
        double sc = std::max(1., H.norm() * (1 + qdd.norm() + a.norm()));
        R->idE.id_fully_actuated(w, t2, g, v, a, q, qd, qdd, e.f);
        c.nearm("inverse dynamics of the forward dynamics: torques", J(t2 / sc), J(tau / sc), 1e-9);
        c.nearm("inverse dynamics of the forward dynamics: base wrench", V6(w / sc), V6::Zero(), 1e-9);
        V6 a2;
        R->idE.id(t2, a2, g, v, q, qd, qdd, e.f);
        c.nearm("floating-base inverse dynamics: torques", J(t2 / sc), J(tau / sc), 1e-8);
        c.nearm("floating-base inverse dynamics: base acceleration", V6(a2 / (1 + a.norm())), V6(a / (1 + a.norm())), 1e-7);
        auto full = [&](const V6& ba, const J& ja, const Ext<Tr>& f, const V6& gg, const V6& vv, const J& jv) {
            V6 bw;
            J jf;
            R->idE.id_fully_actuated(bw, jf, gg, vv, ba, q, jv, ja, f.f);
            V o(6 + n);
            o << bw, jf;
            return o;
        };
        J z = J::Zero();
        V6 z6 = V6::Zero();
        V o0 = full(z6, z, e, g, v, qd);
        Eigen::MatrixXd Hid(6 + n, 6 + n);
        for (int i = 0; i < 6 + n; i++)
        {
            V6 b = V6::Zero();
            J j = J::Zero();
            if (i < 6) b[i] = 1; else j[i - 6] = 1;
            Hid.col(i) = full(b, j, e, g, v, qd) - o0;
        }
        c.nearm("inertia from inverse dynamics", H, Hid, 1e-8);
        V6 gw, cw;
        J gj, cj;
        R->idE.G_terms_fully_actuated(gw, gj, g, q);
        R->idE.C_terms_fully_actuated(cw, cj, v, q, qd);
        V s(6 + n), t(6 + n);
        s << gw + cw, gj + cj;
        c.nearm("gravity and Coriolis terms sum to the bias", s, full(z6, z, none, g, v, qd), 1e-9);
        s << gw, gj;
        c.nearm("gravity term is the static force", s, full(z6, z, none, g, z6, z), 1e-9);
        V6 a3;
        J q3;
        R->fdE.setJointStatus(q);
        R->fdE.fd(q3, a3, v, g, qd, tau, e.f);
        c.nearm("fd with preset configuration", q3, qdd, 1e-12);
        c.nearm("fd with preset configuration: base", a3, a, 1e-12);
    }
}
SCENARIO(dyn_HyQ) { floating<iit::HyQ::tpl::Traits<double>>(c, c.rng); }
SCENARIO(dyn_QuadrotorWithLoad) { floating<iit::ct_quadrotor::tpl::Traits<double>>(c, c.rng); }
MON_MAIN
