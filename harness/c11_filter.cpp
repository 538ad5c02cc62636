// C11: Kalman-type estimators against textbook references.
#include "sys.hpp"
#include <ct/optcon/optcon.h>
using namespace mon;
template <int A, int B> using Mx = Eigen::Matrix<double, A, B>;

// discrete-time model with known Jacobians: x+ = A(t,dt) x + B u dt + c sin(H x)  (c = 0: linear)
template <int N, int M>
struct SysM
{
    Mx<N, N> A, A1, H, V; Mx<N, M> B; Mx<N, 1> c; double w;
    static SysM random(Rng& r, bool linear, bool tv, bool noiseCov)
    {
        SysM s;
        s.A = r.mat<N, N>(-1, 1) * r.uni(0.3, 1.2);
        s.A1 = tv ? Mx<N, N>(r.mat<N, N>(-0.4, 0.4)) : Mx<N, N>::Zero();
        s.H = r.mat<N, N>(-1, 1);
        s.B = r.mat<N, M>(-1, 1);
        s.c = linear ? Mx<N, 1>::Zero() : Mx<N, 1>(r.mat<N, 1>(-1, 1));
        s.w = r.uni(1, 5);
        s.V = noiseCov ? Mx<N, N>(r.spd(N, 0.01, 0.5)) : Mx<N, N>(r.mat<N, N>(-1, 1));
        return s;
    }
    Mx<N, N> At(double dt, double t) const { return A + std::sin(w * t) * A1 + dt * Mx<N, N>::Identity(); }
    Mx<N, 1> f(const Mx<N, 1>& x, const Mx<M, 1>& u, double dt, double t) const { return At(dt, t) * x + dt * B * u + Mx<N, 1>(c.array() * (H * x).array().sin()); }
    Mx<N, N> fx(const Mx<N, 1>& x, double dt, double t) const { return At(dt, t) + Mx<N, N>((Mx<N, 1>(c.array() * (H * x).array().cos())).asDiagonal() * H); }
    Mx<N, N> noise(double dt, double t) const { return V * (1 + 0.3 * std::sin(t) * std::sin(t) + 0.1 * dt); }
};
template <int N, int M>
struct SysModel : ct::optcon::SystemModelBase<N, M>
{
    SysM<N, M> s;
    SysModel(const SysM<N, M>& ss) : s(ss) {}
    typedef ct::optcon::SystemModelBase<N, M> B;
    typename B::state_vector_t computeDynamics(const typename B::state_vector_t& x, const typename B::control_vector_t& u, const double dt, double t) override { return s.f(x, u, dt, t); }
    typename B::state_matrix_t computeDerivativeState(const typename B::state_vector_t& x, const typename B::control_vector_t& u, const double dt, double t) override { return s.fx(x, dt, t); }
    typename B::state_matrix_t computeDerivativeNoise(const typename B::state_vector_t& x, const typename B::control_vector_t& u, const double dt, double t) override { return s.noise(dt, t); }
};
template <int N, int Y>
struct MeasM
{
    Mx<Y, N> C, C1; Mx<Y, Y> W; Mx<Y, 1> d; double w;
    static MeasM random(Rng& r, bool linear, bool tv, bool noiseCov)
    {
        MeasM m;
        m.C = r.mat<Y, N>(-1, 1);
        m.C1 = tv ? Mx<Y, N>(r.mat<Y, N>(-0.5, 0.5)) : Mx<Y, N>::Zero();
        m.d = linear ? Mx<Y, 1>::Zero() : Mx<Y, 1>(r.mat<Y, 1>(-0.5, 0.5));
        m.w = r.uni(1, 5);
        Mx<Y, Y> S = r.spd(Y, 0.3, 1);
        m.W = noiseCov ? S : (S + 0.1 * r.mat<Y, Y>(-1, 1)).eval();
        return m;
    }
    Mx<Y, N> Ct(double t) const { return C + std::sin(w * t) * C1; }
    Mx<Y, 1> h(const Mx<N, 1>& x, double t) const { Mx<Y, 1> y = Ct(t) * x; return y + Mx<Y, 1>(d.array() * y.array().square()); }
    Mx<Y, N> hx(const Mx<N, 1>& x, double t) const
    {
        Mx<Y, 1> y = Ct(t) * x;
        Mx<Y, 1> g = Mx<Y, 1>::Ones() + Mx<Y, 1>(2 * d.array() * y.array());
        return g.asDiagonal() * Ct(t);
    }
    Mx<Y, Y> noise(double t) const { return W * (1 + 0.2 * std::cos(t) * std::cos(t)); }
};
template <int N, int Y>
struct MeasModel : ct::optcon::LinearMeasurementModel<Y, N>
{
    MeasM<N, Y> m;
    typedef ct::optcon::LinearMeasurementModel<Y, N> B;
    MeasModel(const MeasM<N, Y>& mm) : m(mm) {}
    typename B::output_vector_t computeMeasurement(const typename B::state_vector_t& x, const double& t = 0) override { return m.h(x, t); }
    typename B::output_state_matrix_t computeDerivativeState(const typename B::state_vector_t& x, const double& t) override { return m.hx(x, t); }
    typename B::output_matrix_t computeDerivativeNoise(const typename B::state_vector_t& x, const double& t) override { return m.noise(t); }
};
template <int N>
static bool psd(const Mx<N, N>& S, double tol) { return Eigen::SelfAdjointEigenSolver<Mx<N, N>>(Mx<N, N>(0.5 * (S + S.transpose()))).eigenvalues().minCoeff() > -tol; }

// ---------------------------------------------------------------- extended Kalman filter
template <int N, int M, int Y>
static void ekf(Case& c)
{
    Rng& r = c.rng;
    bool lin = r.coin(), tv = r.coin(0.7);
    auto sm = SysM<N, M>::random(r, lin, tv, false);
    auto mm = MeasM<N, Y>::random(r, lin, tv, false);
    Mx<N, N> Q = r.spd(N, 0.05, 1), P = r.coin(0.3) ? Mx<N, N>::Zero() : Mx<N, N>(r.spd(N, 0.1, 2));
    Mx<Y, Y> R = r.spd(Y, 0.1, 1);
    Mx<N, 1> x = r.mat<N, 1>(-1, 1);
    typedef ct::optcon::ExtendedKalmanFilter<N, M, Y> F;
    F f(std::make_shared<SysModel<N, M>>(sm), std::make_shared<MeasModel<N, Y>>(mm), Q, R, x, P);
    double t = r.uni(0, 2);
    int n = r.in(4, 25);
    c.cfg = "lin" + str(lin) + " tv" + str(tv);
    for (int i = 0; i < n; ++i)
    {
        double dt = r.coin() ? 0.1 : r.uni(0.01, 0.5);
        int op = r.in(0, 9);
        if (op == 0) { Q = r.spd(N, 0.05, 1); f.setQ(Q); }
        if (op == 1) { R = r.spd(Y, 0.1, 1); f.setR(R); }
        if (op == 2) { x = r.mat<N, 1>(-1, 1); f.setEstimate(x); }
        if (op == 3) { sm = SysM<N, M>::random(r, lin, tv, false); f.setSystemModel(std::make_shared<SysModel<N, M>>(sm)); }
        if (op == 4) { mm = MeasM<N, Y>::random(r, lin, tv, false); f.setMeasurementModel(std::make_shared<MeasModel<N, Y>>(mm)); }
        if (r.coin(0.6))
        {
            Mx<M, 1> u = r.mat<M, 1>(-1, 1);
            Mx<N, N> A = sm.fx(x, dt, t), V = sm.noise(dt, t);
            P = (A * P * A.transpose() + dt * V * Q * V.transpose()).eval();
            x = sm.f(x, u, dt, t);
            Mx<N, 1> got = f.predict(u, dt, t);
            if (!(x.norm() < 50)) throw Skip();
            c.nearm("ekf_predict", got, x, 1e-9);
            t += dt;
        }
        else
        {
            Mx<Y, 1> y = mm.h(x, t) + r.mat<Y, 1>(-1, 1);
            Mx<Y, N> C = mm.hx(x, t);
            Mx<Y, Y> W = mm.noise(t), S = C * P * C.transpose() + W * R * W.transpose();
            Mx<N, Y> K = S.ldlt().solve(C * P).transpose();
            x = (x + K * (y - mm.h(x, t))).eval();
            Mx<N, N> IKC = Mx<N, N>::Identity() - K * C;
            P = (IKC * P * IKC.transpose() + K * W * R * W.transpose() * K.transpose()).eval();  // Joseph form
            Mx<N, 1> got = f.update(y, dt, t);
            if (!(x.norm() < 50)) throw Skip();
            c.nearm("ekf_update", got, x, 1e-7);
        }
        double s = 1 + P.norm();
        if (s > 1e4) throw Skip();
        c.nearm("ekf_estimate", f.getEstimate(), x, 1e-7);
        c.nearm("ekf_covariance", f.getCovarianceMatrix(), P, 1e-7 * s);
        c.check("ekf_cov_psd", psd<N>(f.getCovarianceMatrix(), 1e-7 * s), "covariance lost positive semidefiniteness");
        c.nearm("ekf_cov_symmetric", f.getCovarianceMatrix(), f.getCovarianceMatrix().transpose(), 1e-7 * s);
    }
}
SCENARIO_W(ekf_3_2_2, 3) { ekf<3, 2, 2>(c); }
SCENARIO_W(ekf_2_1_3, 1) { ekf<2, 1, 3>(c); }
SCENARIO_W(ekf_1_1_1, 1) { ekf<1, 1, 1>(c); }

// ---------------------------------------------------------------- steady-state Kalman filter
template <int N, int M, int Y>
static void sskf(Case& c)
{
    Rng& r = c.rng;
    auto sm = SysM<N, M>::random(r, true, false, false);
    auto mm = MeasM<N, Y>::random(r, true, false, false);
    Mx<N, N> Q = r.spd(N, 0.1, 1);
    Mx<Y, Y> R = r.spd(Y, 0.2, 1);
    double dt = r.uni(0.05, 0.5), t = r.uni(0, 1);
    Mx<N, N> A = sm.At(dt, 0), P = Q;
    Mx<N, Y> K;
    auto riccati = [&](double eps, Mx<N, Y>& Kx) {
        Mx<N, N> Pk = Q, Po;
        for (int i = 0; i < 3000; ++i)
        {
            Mx<Y, Y> S = mm.C * Pk * mm.C.transpose() + R + eps * Mx<Y, Y>::Identity();
            Kx = S.ldlt().solve(mm.C * Pk).transpose();
            Po = Pk;
            Pk = (A * (Pk - Kx * S * Kx.transpose()) * A.transpose() + Q).eval();
            Pk = (0.5 * (Pk + Pk.transpose())).eval();
            if (i > 5 && (Pk - Po).norm() < 1e-13 * Pk.norm()) return true;
        }
        return false;
    };
    Mx<N, Y> K1;
    if (!riccati(0, K) || !riccati(3e-5, K1)) throw Skip();
    double rho = Mx<N, N>(A - A * K * mm.C).eigenvalues().cwiseAbs().maxCoeff();
    if (rho > 0.9) throw Skip();  // the filter stops the Riccati iteration at 1e-6
    double tol = 2e-5 / (1 - rho) + 3 * (K1 - K).norm();
    Mx<N, 1> x = r.mat<N, 1>(-1, 1);
    typedef ct::optcon::SteadyStateKalmanFilter<N, M, Y> F;
    F f(std::make_shared<SysModel<N, M>>(sm), std::make_shared<MeasModel<N, Y>>(mm), Q, R, x, 5000);
    Mx<N, 1> truth = x + 0.5 * r.mat<N, 1>(-1, 1);
    int n = r.in(3, 20);
    for (int i = 0; i < n; ++i)
    {
        Mx<M, 1> u = r.mat<M, 1>(-1, 1);
        x = f.getEstimate();
        Mx<N, 1> xp = f.predict(u, dt, t);
        c.nearm("ss_predict", xp, sm.f(x, u, dt, t), 1e-9);
        truth = sm.f(truth, u, dt, t);
        t += dt;
        Mx<Y, 1> y = mm.h(truth, t);
        Mx<N, 1> want = xp + K * (y - mm.h(xp, t));
        Mx<N, 1> got = f.update(y, dt, t);
        if (truth.norm() > 1e3) throw Skip();
        c.nearm("ss_update", got, want, tol * (1 + (y - mm.h(xp, t)).norm()) );
        c.nearm("ss_estimate", f.getEstimate(), got, 0);
    }
}
SCENARIO_W(sskf_3_1_2, 2) { sskf<3, 1, 2>(c); }
SCENARIO_W(sskf_2_2_1, 1) { sskf<2, 2, 1>(c); }
SCENARIO_W(sskf_1_1_2, 1) { sskf<1, 1, 2>(c); }

// ---------------------------------------------------------------- unscented Kalman filter (process and measurement noise covariance come from the models)
template <int N, int M, int Y>
static void ukf(Case& c)
{
    Rng& r = c.rng;
    bool lin = r.coin(), tv = r.coin(0.6);
    auto sm = SysM<N, M>::random(r, lin, tv, true);
    auto mm = MeasM<N, Y>::random(r, lin, tv, true);
    bool noQ = lin && r.coin();
    if (noQ) { sm.V.setZero(); sm.A = Mx<N, N>::Identity() * 0.5 + 0.3 * r.mat<N, N>(-1, 1); sm.A1.setZero(); }
    Mx<N, N> P = r.spd(N, 0.2, 1.5);
    Mx<N, 1> x = r.mat<N, 1>(-1, 1);
    double al = r.uni(0.3, 1.2), be = r.uni(0, 3), ka = r.uni(-0.5, 3);
    typedef ct::optcon::UnscentedKalmanFilter<N, M, Y> F;
    std::shared_ptr<F> f;
    auto S = std::make_shared<SysModel<N, M>>(sm);
    auto H = std::make_shared<MeasModel<N, Y>>(mm);
    if (r.coin()) f.reset(new F(S, H, x, al, be, ka, P));
    else
    {
        ct::optcon::UnscentedKalmanFilterSettings<N> st;
        st.x0 = x; st.alpha = al; st.beta = be; st.kappa = ka; st.P0 = P;
        f.reset(new F(S, H, st));
    }
    double L = N, lam = al * al * (L + ka) - L, gam = std::sqrt(L + lam);
    auto wm = [&](int i) { return i == 0 ? lam / (L + lam) : 0.5 / (L + lam); };
    auto wc = [&](int i) { return i == 0 ? lam / (L + lam) + 1 - al * al + be : 0.5 / (L + lam); };
    double t = r.uni(0, 1);
    c.cfg = "lin" + str(lin) + " tv" + str(tv) + " noQ" + str(noQ) + " alpha" + str(al) + " kappa" + str(ka);
    int n = r.in(2, 12);
    Mx<N, 1> kx = x; Mx<N, N> kP = P;  // exact Kalman filter, valid while linear and without process noise
    for (int i = 0; i < n; ++i)
    {
        int np = r.coin(0.8) ? 1 : 2;
        std::vector<Mx<N, 1>> X(2 * N + 1);
        double dt = r.uni(0.01, 0.3);
        for (int k = 0; k < np; ++k)
        {
            Mx<M, 1> u = r.mat<M, 1>(-1, 1);
            Eigen::LLT<Mx<N, N>> llt(P);
            if (llt.info() != Eigen::Success) throw Skip();
            Mx<N, N> Lc = llt.matrixL();
            X[0] = x;
            for (int j = 0; j < N; ++j) { X[1 + j] = x + gam * Lc.col(j); X[1 + N + j] = x - gam * Lc.col(j); }
            Mx<N, 1> m = Mx<N, 1>::Zero();
            for (int j = 0; j <= 2 * N; ++j) { X[j] = sm.f(X[j], u, dt, t); m += wm(j) * X[j]; }
            P = sm.noise(dt, t);
            for (int j = 0; j <= 2 * N; ++j) P += wc(j) * (X[j] - m) * (X[j] - m).transpose();
            x = m;
            Mx<N, N> A = sm.fx(kx, dt, t);
            kx = sm.f(kx, u, dt, t);
            kP = (A * kP * A.transpose()).eval();
            Mx<N, 1> got = f->predict(u, dt, t);
            if (!(x.norm() < 50) || Eigen::SelfAdjointEigenSolver<Mx<N, N>>(P).eigenvalues().minCoeff() < 1e-4) throw Skip();
            c.nearm("ukf_predict", got, x, 1e-7);
            t += dt;
        }
        std::vector<Mx<Y, 1>> Z(2 * N + 1);
        Mx<Y, 1> z = Mx<Y, 1>::Zero();
        for (int j = 0; j <= 2 * N; ++j) { Z[j] = mm.h(X[j], t); z += wm(j) * Z[j]; }
        Mx<Y, Y> Pyy = mm.noise(t);
        Mx<N, Y> Pxy = Mx<N, Y>::Zero();
        for (int j = 0; j <= 2 * N; ++j) { Pyy += wc(j) * (Z[j] - z) * (Z[j] - z).transpose(); Pxy += wc(j) * (X[j] - x) * (Z[j] - z).transpose(); }
        if (Eigen::SelfAdjointEigenSolver<Mx<Y, Y>>(Pyy).eigenvalues().minCoeff() < 1e-3) throw Skip();
        Mx<N, Y> K = Pxy * Pyy.inverse();
        Mx<Y, 1> y = z + r.mat<Y, 1>(-1, 1);
        x = (x + K * (y - z)).eval();
        P = (P - K * Pyy * K.transpose()).eval();
        if (noQ)
        {
            Mx<Y, N> C = mm.hx(kx, t);
            Mx<Y, Y> Sk = C * kP * C.transpose() + mm.noise(t);
            Mx<N, Y> Kk = kP * C.transpose() * Sk.inverse();
            kx = (kx + Kk * (y - mm.h(kx, t))).eval();
            kP = (kP - Kk * Sk * Kk.transpose()).eval();
        }
        Mx<N, 1> got = f->update(y, dt, t);
        c.nearm("ukf_update", got, x, 1e-6);
        c.nearm("ukf_estimate", f->getEstimate(), got, 0);
        if (noQ) c.nearm("ukf_is_kalman_filter", got, kx, 1e-5);
        if (Eigen::SelfAdjointEigenSolver<Mx<N, N>>(P).eigenvalues().minCoeff() < 1e-4) throw Skip();
    }
}
SCENARIO_W(ukf_3_2_2, 2) { ukf<3, 2, 2>(c); }
SCENARIO_W(ukf_2_1_3, 1) { ukf<2, 1, 3>(c); }
SCENARIO_W(ukf_1_1_1, 1) { ukf<1, 1, 1>(c); }
SCENARIO_W(ukf_2_2_2, 1) { ukf<2, 2, 2>(c); }

// ---------------------------------------------------------------- continuous-time model and measurement model adaptors
SCENARIO_W(ct_model, 2)
{
    Rng& r = c.rng;
    static const int N = 4, M = 2;
    auto d = Dyn<N, M>::random(r, 1.0, true);
    typedef ct::core::SensitivityApproximation<N, M> SA;
    int ap = r.in(0, 1);
    double dt0 = r.uni(0.01, 0.2);
    auto sa = std::make_shared<SA>(dt0, std::make_shared<DynLin<N, M>>(d), ap == 0 ? ct::core::SensitivityApproximationSettings::APPROXIMATION::FORWARD_EULER : ct::core::SensitivityApproximationSettings::APPROXIMATION::MATRIX_EXPONENTIAL);
    Mx<N, N> V = r.mat<N, N>(-1, 1);
    bool rk = r.coin();
    auto sys = std::make_shared<DynSys<N, M, double>>(d);
    ct::optcon::CTSystemModel<N, M> m(sys, sa, V, rk ? ct::core::IntegrationType::RK4 : ct::core::IntegrationType::EULERCT);
    int n = r.in(1, 8);
    for (int i = 0; i < n; ++i)
    {
        double dt = r.coin() ? dt0 : r.uni(0.01, 0.2);
        int k = r.in(0, 200);
        double t = k * dt;
        Mx<N, 1> x = r.mat<N, 1>(-1, 1);
        Mx<M, 1> u = r.mat<M, 1>(-1, 1);
        auto f = [&](const Mx<N, 1>& y, double s) { return Mx<N, 1>(d.fd(y, u, s)); };
        Mx<N, 1> want = rk ? rk4Step(f, x, t, dt) : eulerStep(f, x, t, dt);
        c.nearm("ct_dynamics", m.computeDynamics(x, u, dt, t), want, 1e-9);
        Mx<N, N> A = d.fx(x, u, t), W = Mx<N, N>::Identity() + dt * A;
        if (ap == 1) { Mx<N, N> T = Mx<N, N>::Identity(); W.setIdentity(); for (int j = 1; j < 25; ++j) { T = (T * A * dt / j).eval(); W += T; } }
        c.nearm("ct_derivative", m.computeDerivativeState(x, u, dt, t), W, 1e-7);
        c.nearm("ct_noise", m.computeDerivativeNoise(x, u, dt, t), V, 0);
    }
    static const int Y = 2;
    Mx<Y, N> C = r.mat<Y, N>(-1, 1);
    Mx<Y, Y> Wn = r.mat<Y, Y>(-1, 1);
    ct::optcon::LTIMeasurementModel<Y, N> h(C, Wn);
    Mx<N, 1> x = r.mat<N, 1>(-1, 1);
    c.nearm("lti_measurement", h.computeMeasurement(x, 0.3), C * x, 1e-12);
    c.nearm("lti_jacobian", h.computeDerivativeState(x, 0.3), C, 0);
    c.nearm("lti_noise", h.computeDerivativeNoise(x, 0.3), Wn, 0);
}
// augmentation with an input disturbance
SCENARIO_W(disturbed, 2)
{
    Rng& r = c.rng;
    static const int N = 3, M = 2;
    auto d = Dyn<N, M>::random(r, 1.0, true);
    typedef ct::optcon::InputDisturbedSystem<N, M> IDS;
    auto sys = std::make_shared<DynSys<N, M, double>>(d);
    Mx<M, 1> u0 = r.mat<M, 1>(-1, 1), u1 = r.mat<M, 1>(-1, 1), cur = u0;
    bool has = r.coin(0.7);
    typedef ct::core::ConstantController<N, M> CC;
    if (has)
    {
        ct::core::ControlVector<M> cv = u0;
        sys->setController(std::make_shared<CC>(cv));
    }
    std::shared_ptr<IDS> s(new IDS(sys)), q;
    std::shared_ptr<ct::core::ControlledSystem<N + M, M>> cl;
    int n = r.in(2, 6);
    for (int i = 0; i < n; ++i)
    {
        int op = r.in(0, 3);
        if (op == 0) cl.reset(s->clone());
        if (op == 1)
        {
            ct::core::ControlVector<M> cv = u1;
            s->setController(std::make_shared<CC>(cv));
            cl.reset();
            cur = u1;
            has = true;
        }
        if (op == 2) s.reset(s->clone());
        ct::core::StateVector<N + M> x = r.mat<N + M, 1>(-1, 1), dx;
        ct::core::ControlVector<M> u = r.mat<M, 1>(-1, 1);
        double t = r.uni(0, 2);
        dx.setConstant(7);
        auto want = [&](const Mx<M, 1>& v) {
            Mx<N + M, 1> w = Mx<N + M, 1>::Zero();
            w.head<N>() = d.fd(x.head<N>(), v + x.tail<M>(), t);
            return w;
        };
        s->computeControlledDynamics(x, t, u, dx);
        c.nearm("dist_dynamics", dx, want(u), 1e-10);
        if (cl) { dx.setConstant(7); cl->computeControlledDynamics(x, t, u, dx); c.nearm("dist_clone_dynamics", dx, want(u), 1e-10); }
        if (has)
        {
            s->computeDynamics(x, t, dx);
            c.nearm("dist_closed_loop", dx, want(cur), 1e-10);
            if (cl) { cl->computeDynamics(x, t, dx); c.nearm("dist_clone_closed_loop", dx, want(cur), 1e-10); }
        }
        else
        {
            bool thrown = false;
            try { s->computeDynamics(x, t, dx); } catch (std::runtime_error&) { thrown = true; }
            c.check("dist_no_controller", thrown, "");
        }
    }
}
MON_MAIN
