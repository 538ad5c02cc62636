// C06: infinite-horizon (CARE, DARE, LQR) and finite-horizon (FHDTLQR) Riccati solvers.
// Oracle: Riccati residuals + stability (the stabilizing solution is unique), plain dynamic programming in the finite-horizon case.
// The discrete-time recursion of the toolbox is regularized with a small multiple of the identity; the tolerance is the effect of 3e-5.
#include "sys.hpp"
#include <ct/optcon/optcon.h>
using namespace mon;

template <int N, int M>
struct P
{
    Eigen::Matrix<double, N, N> A, Q;
    Eigen::Matrix<double, N, M> B;
    Eigen::Matrix<double, M, M> R;
    bool diag;
    static P random(Rng& r, bool discrete)
    {
        P p;
        p.A = r.mat<N, N>(-1, 1) * (discrete ? r.uni(0.2, 1.2) : r.uni(0.2, 3));
        p.B = r.mat<N, M>(-1, 1);
        int s = r.in(0, 5);
        if (s == 0) p.A.setZero();
        if (s == 1) p.A = Eigen::Matrix<double, N, N>::Identity() * r.uni(-0.9, 0.9);
        if (s == 2 && N > 1) { p.A.setZero(); for (int i = 0; i + 1 < N; ++i) p.A(i, i + 1) = 1; }  // integrator chain
        if (s == 3 && !discrete)  // oscillator: complex eigenvalues
            p.A = (p.A - p.A.transpose()).eval();
        p.Q = r.spd(N, 0.2, 5);
        p.diag = r.coin();
        if (r.coin(0.3)) p.R = Eigen::Matrix<double, M, M>::Identity() * r.uni(0.5, 2);
        else p.R = r.spd(M, 0.3, 4);
        if (p.diag) { auto d = p.R.diagonal().eval(); p.R.setZero(); p.R.diagonal() = d; }
        return p;
    }
    // 1/condition of controllability
    double ctrb() const
    {
        Eigen::MatrixXd C(N, N * M), X = B;
        for (int i = 0; i < N; ++i) { C.middleCols(i * M, M) = X; X = (A * X).eval(); }
        auto s = Eigen::JacobiSVD<Eigen::MatrixXd>(C).singularValues();
        return s(N - 1);
    }
};
template <int N>
static bool psd(const Eigen::Matrix<double, N, N>& S, double tol) { return Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd>(0.5 * (S + S.transpose())).eigenvalues().minCoeff() > -tol; }

template <int N, int M>
static void continuous(Case& c)
{
    Rng& r = c.rng;
    ct::optcon::LQR<N, M> lqr;
    ct::optcon::CARE<N, M> care;
    int n = r.in(1, 4);
    for (int i = 0; i < n; ++i)  // the solver objects are reused
    {
        P<N, M> p = P<N, M>::random(r, false);
        if (p.ctrb() < 0.05) continue;
        bool it = r.coin();
        c.cfg = "it" + str(it) + " diag" + str(p.diag) + " A " + str(p.A.norm());
        Eigen::Matrix<double, M, N> K;
        bool ok = lqr.compute(p.Q, p.R, p.A, p.B, K, p.diag && r.coin(), it);
        c.check("lqr_success", ok, "compute() failed on a controllable problem");
        Eigen::Matrix<double, N, N> S = care.computeSteadyStateRiccatiMatrix(p.Q, p.R, p.A, p.B, p.diag && r.coin(), it);
        Eigen::Matrix<double, M, N> Kw = p.R.inverse() * p.B.transpose() * S;
        double sc = 1 + S.norm();
        if (sc > 1e4) continue;
        double tol = (it ? 1e-6 : 1e-8) * sc;
        c.nearm("care_symmetric", S, S.transpose(), tol);
        c.check("care_psd", psd<N>(S, tol), "Riccati solution not positive semidefinite");
        Eigen::Matrix<double, N, N> res = p.A.transpose() * S + S * p.A - S * p.B * p.R.inverse() * p.B.transpose() * S + p.Q;
        c.nearm("care_residual", res, (Eigen::Matrix<double, N, N>::Zero()), tol * sc);
        c.nearm("lqr_gain", K, Kw, 1e-7 * sc);
        c.check("lqr_stable", Eigen::Matrix<double, N, N>(p.A - p.B * K).eigenvalues().real().maxCoeff() < 0, "closed loop not stable");
        c.sig.m(K);
    }
}
SCENARIO_W(continuous_3_2, 3) { continuous<3, 2>(c); }
SCENARIO_W(continuous_1_1, 1) { continuous<1, 1>(c); }
SCENARIO_W(continuous_2_4, 1) { continuous<2, 4>(c); }
SCENARIO_W(continuous_6_2, 1) { continuous<6, 2>(c); }

// plain dynamic programming step with R + eps I; returns the gain of u = K x
template <int N, int M>
static Eigen::Matrix<double, M, N> dp(const Eigen::Matrix<double, N, N>& Q, const Eigen::Matrix<double, M, M>& R, const Eigen::Matrix<double, N, N>& A,
    const Eigen::Matrix<double, N, M>& B, Eigen::Matrix<double, N, N>& S, double eps)
{
    Eigen::Matrix<double, M, M> Re = R + eps * Eigen::Matrix<double, M, M>::Identity();
    Eigen::Matrix<double, M, M> H = Re + B.transpose() * S * B;
    Eigen::Matrix<double, M, N> K = -H.inverse() * B.transpose() * S * A;
    Eigen::Matrix<double, N, N> F = A + B * K;
    S = (Q + K.transpose() * Re * K + F.transpose() * S * F).eval();  // Joseph form
    return K;
}
template <int N, int M>
static void discrete(Case& c)
{
    Rng& r = c.rng;
    ct::optcon::DARE<N, M> dare;
    typedef Eigen::Matrix<double, N, N> NN;
    int n = r.in(1, 3);
    for (int i = 0; i < n; ++i)
    {
        P<N, M> p = P<N, M>::random(r, true);
        if (p.ctrb() < 0.05) continue;
        NN S0 = p.Q, S1 = p.Q;
        Eigen::Matrix<double, M, N> K0, K1;
        NN Sp = NN::Zero();
        for (int k = 0; k < 2000 && !(k > 20 && (S0 - Sp).norm() < 1e-13 * S0.norm()); ++k) { Sp = S0; K0 = dp<N, M>(p.Q, p.R, p.A, p.B, S0, 0); K1 = dp<N, M>(p.Q, p.R, p.A, p.B, S1, 3e-5); }
        double rho = NN(p.A + p.B * K0).eigenvalues().cwiseAbs().maxCoeff();
        if (rho > 0.97 || S0.norm() > 1e3) continue;
        Eigen::Matrix<double, M, N> K;
        NN S;
        bool init = r.coin();
        c.cfg = "init" + str(init) + " diag" + str(p.diag) + " rho " + str(rho);
        if (init) S = dare.computeSteadyStateRiccatiMatrix(p.Q, p.R, p.A, p.B, NN(r.spd(N, 0.1, 5)), K, false, 1e-10, 100000);
        else S = dare.computeSteadyStateRiccatiMatrix(p.Q, p.R, p.A, p.B, K, false, 1e-10, 100000);
        double tol = 1e-6 + (S1 - S0).norm() + (K1 - K0).norm() * (1 + S0.norm());
        c.nearm("dare_P", S, S0, tol);
        c.nearm("dare_symmetric", S, S.transpose(), 1e-9);
        c.check("dare_psd", psd<N>(S, 1e-7), "");
        c.nearm("dare_gain", K, K0, tol);
        c.check("dare_stable", NN(p.A + p.B * K).eigenvalues().cwiseAbs().maxCoeff() < 1, "closed loop not stable");
        // not converged within the allowed number of iterations: must be reported
        Eigen::Matrix<double, M, N> Kx;
        if ((dp<N, M>(p.Q, p.R, p.A, p.B, S1 = p.Q, 0), (S1 - p.Q).cwiseAbs().maxCoeff() > 1e-3))
        {
            bool thrown = false;
            try { dare.computeSteadyStateRiccatiMatrix(p.Q, p.R, p.A, p.B, Kx, false, 1e-12, 1); } catch (std::runtime_error&) { thrown = true; }
            c.check("dare_not_converged_reported", thrown, "one iteration accepted as converged");
        }
    }
}
SCENARIO_W(discrete_3_2, 2) { discrete<3, 2>(c); }
SCENARIO_W(discrete_1_1, 1) { discrete<1, 1>(c); }
SCENARIO_W(discrete_2_4, 1) { discrete<2, 4>(c); }
SCENARIO_W(discrete_1_3, 1) { discrete<1, 3>(c); }

template <int N, int M>
struct TvCost : ct::optcon::CostFunctionQuadratic<N, M>
{
    typedef ct::optcon::CostFunctionQuadratic<N, M> B;
    Eigen::Matrix<double, N, N> Q, Qf; Eigen::Matrix<double, M, M> R;
    double a, b, e;  // Hessians depend on time and on the point of the trajectory
    TvCost* clone() const override { return new TvCost(*this); }
    double qs(const Eigen::Matrix<double, N, 1>& x, double t) const { return 1 + a * std::sin(t) * std::sin(t) + e * x.squaredNorm(); }
    double rs(const Eigen::Matrix<double, M, 1>& u, double t) const { return 1 + b * std::cos(t) * std::cos(t) + e * u.squaredNorm(); }
    double evaluateIntermediate() override { return 0; }
    double evaluateTerminal() override { return 0; }
    typename B::state_vector_t stateDerivativeIntermediate() override { return B::state_vector_t::Zero(); }
    typename B::state_vector_t stateDerivativeTerminal() override { return B::state_vector_t::Zero(); }
    typename B::state_matrix_t stateSecondDerivativeIntermediate() override { return Q * qs(this->x_, this->t_); }
    typename B::state_matrix_t stateSecondDerivativeTerminal() override { return Qf * qs(this->x_, this->t_); }
    typename B::control_vector_t controlDerivativeIntermediate() override { return B::control_vector_t::Zero(); }
    typename B::control_matrix_t controlSecondDerivativeIntermediate() override { return R * rs(this->u_, this->t_); }
    typename B::control_state_matrix_t stateControlDerivativeIntermediate() override { return B::control_state_matrix_t::Zero(); }
};
template <int N, int M>
static void finite(Case& c)
{
    Rng& r = c.rng;
    typedef Eigen::Matrix<double, N, N> NN;
    auto cost = std::make_shared<TvCost<N, M>>();
    bool diag = r.coin();
    cost->Q = r.spd(N, 0.2, 3);
    cost->Qf = r.spd(N, 0.2, 3);
    cost->R = r.spd(M, 0.5, 3);
    if (r.coin(0.3)) cost->R = Eigen::Matrix<double, M, M>::Identity();
    if (diag)
    {
        cost->Q = NN(cost->Q.diagonal().asDiagonal());
        cost->R = Eigen::Matrix<double, M, M>(cost->R.diagonal().asDiagonal());
    }
    bool tv = r.coin(0.7);
    cost->a = tv ? r.uni(0, 2) : 0;
    cost->b = tv ? r.uni(0, 2) : 0;
    cost->e = tv ? r.uni(0, 1) : 0;
    ct::optcon::FHDTLQR<N, M> d(cost);
    int n = r.in(1, 3);
    for (int it = 0; it < n; ++it)
    {
        int K = r.in(1, 12);
        double dt = r.uni(0.05, 0.3);
        ct::core::StateVectorArray<N> x(K + 1);
        ct::core::ControlVectorArray<M> u(K);
        for (auto& v : x) v = r.mat<N, 1>(-1, 1);
        for (auto& v : u) v = r.mat<M, 1>(-1, 1);
        bool viaSystem = r.coin();
        auto dyn = Dyn<N, M>::random(r, 1.0, true);
        ct::core::StateMatrixArray<N> A(K);
        ct::core::StateControlMatrixArray<N, M> B(K);
        ct::core::FeedbackArray<N, M> L(r.in(0, 3));
        for (int k = 0; k < K; ++k)
        {
            if (viaSystem)
            {
                A[k] = NN::Identity() + dt * dyn.fx(x[k], u[k], k * dt);
                B[k] = dt * dyn.fu(x[k], u[k], k * dt);
            }
            else { A[k] = r.mat<N, N>(-1, 1); B[k] = r.mat<N, M>(-1, 1); }
        }
        c.cfg += " K" + str(K) + " sys" + str(viaSystem) + " diag" + str(diag);
        if (viaSystem) d.designController(x, u, std::make_shared<DynLin<N, M>>(dyn), dt, L, diag);
        else d.designController(x, u, A, B, dt, L, diag);
        if (!c.check("fh_size", (int)L.size() == K, str(L.size()))) return;
        NN S0 = cost->Qf * cost->qs(x[K], K * dt), S1 = S0;
        for (int k = K - 1; k >= 0; --k)
        {
            NN Q = cost->Q * cost->qs(x[k], k * dt) * dt;
            Eigen::Matrix<double, M, M> R = cost->R * cost->rs(u[k], k * dt) * dt;
            auto K0 = dp<N, M>(Q, R, A[k], B[k], S0, 0);
            auto K1 = dp<N, M>(Q, R, A[k], B[k], S1, 3e-5);
            c.nearm("fh_gain", L[k], K0, 1e-7 + 2 * (K1 - K0).norm());
        }
        // wrong lengths are rejected
        auto bad = A;
        bad.resize(K + 1);
        bool thrown = false;
        try { d.designController(x, u, bad, B, dt, L, false); } catch (std::runtime_error&) { thrown = true; }
        c.check("fh_length_checked", thrown, "");
    }
}
SCENARIO_W(finite_3_2, 3) { finite<3, 2>(c); }
SCENARIO_W(finite_1_1, 1) { finite<1, 1>(c); }
SCENARIO_W(finite_2_4, 1) { finite<2, 4>(c); }
MON_MAIN
