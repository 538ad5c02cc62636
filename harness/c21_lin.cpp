// C21: linear systems
#include "mon.hpp"
#include <ct/core/core.h>
using namespace ct::core;
using mon::Case;

// matrices with a known, well-separated rank structure: block-diagonal modal form with integer entries, exactly computed
template <int N, int M>
void gen(mon::Rng& r, Eigen::MatrixXd& A, Eigen::MatrixXd& B, Eigen::MatrixXd& C, bool& ctrl, bool& obs)
{
    // diagonal A with distinct eigenvalues; (A,B) controllable iff every row of B is non-zero, (A,C) observable iff every column of C non-zero
    Eigen::MatrixXd L = Eigen::MatrixXd::Zero(N, N);
    for (int i = 0; i < N; ++i) L(i, i) = (i + 1) * (i % 2 ? -0.5 : 0.5) ;
    B = Eigen::MatrixXd::Zero(N, M); C = Eigen::MatrixXd::Zero(N, N);
    ctrl = obs = true;
    int kb = r.coin() ? r.in(0, N - 1) : -1, kc = r.coin() ? r.in(0, N - 1) : -1;
    for (int i = 0; i < N; ++i)
    {
        for (int j = 0; j < M; ++j) B(i, j) = i == kb ? 0 : (r.coin(0.5) || j == 0 ? double(r.in(1, 3)) * (r.coin() ? 1 : -1) : 0);
    }
    int rows = r.in(1, N);
    for (int j = 0; j < N; ++j) for (int i = 0; i < rows; ++i) C(i, j) = j == kc ? 0 : (r.coin(0.6) || i == 0 ? double(r.in(1, 3)) * (r.coin() ? 1 : -1) : 0);
    if (kb >= 0) ctrl = false;
    if (kc >= 0) obs = false;
    if (r.coin())
    {
        // similarity by a unit lower-triangular integer matrix keeps everything exact in floating point
        Eigen::MatrixXd T = Eigen::MatrixXd::Identity(N, N), Ti = T;
        for (int i = 1; i < N; ++i) { double v = r.in(-1, 1); Eigen::MatrixXd E = Eigen::MatrixXd::Identity(N, N), Ei = E; int j = r.in(0, i - 1); E(i, j) = v; Ei(i, j) = -v; T = T * E; Ti = Ei * Ti; }
        L = T * L * Ti; B = T * B; C = C * Ti;
    }
    A = L;
}
template <int N, int M, class S>
void analyse(Case& c, S& s, const Eigen::MatrixXd& A, const Eigen::MatrixXd& B, const Eigen::MatrixXd& C, bool ctrl, bool obs)
{
    Eigen::Matrix<double, N, N * M> CO;
    s.computeControllabilityMatrix(CO);
    Eigen::MatrixXd P = B;
    for (int i = 0; i < N; ++i) { c.nearm("controllability-matrix", CO.block(0, i * M, N, M), P, 1e-10); P = A * P; }
    Eigen::Matrix<double, N * N, N> O;
    s.computeObservabilityMatrix(O);
    Eigen::MatrixXd Q = C;
    for (int i = 0; i < N; ++i) { c.nearm("observability-matrix", O.block(i * N, 0, N, N), Q, 1e-10); Q = Q * A; }
    c.check("controllable", s.isControllable() == ctrl, "isControllable() wrong, expected " + mon::str(ctrl));
    c.check("observable", s.isObservable() == obs, "isObservable() wrong, expected " + mon::str(obs));
    c.sig.i(ctrl); c.sig.i(obs);
}
template <int N, int M>
void cont(Case& c)
{
    mon::Rng& r = c.rng;
    Eigen::MatrixXd A, B, C; bool ct_, ob;
    gen<N, M>(r, A, B, C, ct_, ob);
    Eigen::MatrixXd D = r.dmat(N, M);
    std::unique_ptr<LTISystem<N, M>> s(new LTISystem<N, M>(A, B, C, D));
    c.cfg = "A [" + mon::str(A) + "] B [" + mon::str(B) + "]";
    for (int k = 0; k < 3; ++k)
    {
        StateVector<N> x, d, y, y0; x = r.mat<N, 1>(-3, 3); ControlVector<M> u; u = r.mat<M, 1>(-3, 3);
        double t = r.uni(-2, 2);
        s->computeControlledDynamics(x, t, u, d);
        c.nearm("dynamics", d, A * x + B * u, 1e-11);
        static_cast<ControlledSystem<N, M>&>(*s).computeControlledDynamics(x, t, u, y0);
        c.nearm("dynamics-base", y0, A * x + B * u, 1e-11);
        s->computeOutput(x, t, u, y);
        c.nearm("output", y, C * x + D * u, 1e-11);
        StateMatrix<N> A2; StateControlMatrix<N, M> B2;
        s->getDerivatives(A2, B2, x, u, t);
        c.nearm("A", A2, A, 0); c.nearm("B", B2, B, 0);
        c.nearm("getDerivativeState", s->getDerivativeState(x, u, t), A, 0);
        c.nearm("getDerivativeControl", s->getDerivativeControl(x, u, t), B, 0);
        // uncontrolled: u = 0
        s->computeDynamics(x, t, d);
        c.nearm("dynamics-uncontrolled", d, A * x, 1e-11);
        analyse<N, M>(c, *s, A, B, C, ct_, ob);
        if (k == 0) s.reset(s->clone());
        else { gen<N, M>(r, A, B, C, ct_, ob); D = r.dmat(N, M); s->A() = A; s->B() = B; s->C() = C; s->D() = D; }
    }
    LTISystem<N, M> def(A, B);
    StateVector<N> x, y; x = r.mat<N, 1>(); ControlVector<M> u; u = r.mat<M, 1>();
    def.computeOutput(x, 0.0, u, y);
    c.nearm("default-output", y, x, 0);
}
SCENARIO_W(lti_2_1, 2) { cont<2, 1>(c); }
SCENARIO(lti_1_1) { cont<1, 1>(c); }
SCENARIO_W(lti_3_2, 2) { cont<3, 2>(c); }
SCENARIO(lti_4_3) { cont<4, 3>(c); }
template <int N, int M>
void disc(Case& c)
{
    mon::Rng& r = c.rng;
    Eigen::MatrixXd A, B, C; bool ct_, ob;
    gen<N, M>(r, A, B, C, ct_, ob);
    Eigen::MatrixXd D = r.dmat(N, M);
    std::unique_ptr<DiscreteLTISystem<N, M>> s(new DiscreteLTISystem<N, M>(A, B, C, D));
    c.cfg = "A [" + mon::str(A) + "] B [" + mon::str(B) + "]";
    for (int k = 0; k < 3; ++k)
    {
        StateVector<N> x, d, y; x = r.mat<N, 1>(-3, 3); ControlVector<M> u; u = r.mat<M, 1>(-3, 3);
        int n = r.in(-2, 9);
        s->propagateControlledDynamics(x, n, u, d);
        c.nearm("dynamics", d, A * x + B * u, 1e-11);
        static_cast<DiscreteControlledSystem<N, M>&>(*s).propagateControlledDynamics(x, n, u, y);
        c.nearm("dynamics-base", y, A * x + B * u, 1e-11);
        s->computeOutput(x, n, u, y);
        c.nearm("output", y, C * x + D * u, 1e-11);
        StateMatrix<N> A2; StateControlMatrix<N, M> B2;
        s->getAandB(x, u, x, n, 1, A2, B2);
        c.nearm("A", A2, A, 0); c.nearm("B", B2, B, 0);
        static_cast<DiscreteLinearSystem<N, M>&>(*s).getAandB(x, u, n, A2, B2);
        c.nearm("A-short", A2, A, 0); c.nearm("B-short", B2, B, 0);
        analyse<N, M>(c, *s, A, B, C, ct_, ob);
        {
            // gramians of a stable system solve the discrete Lyapunov equations
            Eigen::MatrixXd As = r.dmat(N, N); As *= r.uni(0.2, 0.7) / As.norm();
            Eigen::MatrixXd Bs = r.dmat(N, M), Cs = r.dmat(N, N);
            DiscreteLTISystem<N, M> st(As, Bs, Cs);
            Eigen::MatrixXd W = st.computeControllabilityGramian(1000, 1e-13), O = st.computeObservabilityGramian(1000, 1e-13);
            c.nearm("controllability-gramian", W, As * W * As.transpose() + Bs * Bs.transpose(), 1e-9);
            c.nearm("observability-gramian", O, As.transpose() * O * As + Cs.transpose() * Cs, 1e-9);
            // partial sums
            int m = r.in(1, 4);
            Eigen::MatrixXd S = Eigen::MatrixXd::Zero(N, N), Ap = Eigen::MatrixXd::Identity(N, N), T = S;
            for (int i = 0; i < m; ++i) { S += Ap * Bs * Bs.transpose() * Ap.transpose(); T += Ap.transpose() * Cs.transpose() * Cs * Ap; Ap = Ap * As; }
            c.nearm("controllability-gramian-finite", st.computeControllabilityGramian(m, 0.0), S, 1e-10);
            c.nearm("observability-gramian-finite", st.computeObservabilityGramian(m, 0.0), T, 1e-10);
        }
        if (k == 0) s.reset(s->clone());
        else { gen<N, M>(r, A, B, C, ct_, ob); D = r.dmat(N, M); s->A() = A; s->B() = B; s->C() = C; s->D() = D; }
    }
}
SCENARIO_W(dlti_2_1, 2) { disc<2, 1>(c); }
SCENARIO_W(dlti_3_2, 2) { disc<3, 2>(c); }
// user-defined linear systems: the matrices may depend on state, control and time; the base class must assemble the dynamics from them
template <int N, int M>
struct Ltv : LinearSystem<N, M>
{
    Eigen::Matrix<double, N, N> A0, A1; Eigen::Matrix<double, N, M> B0, B1; StateMatrix<N> a; StateControlMatrix<N, M> b;
    Ltv(mon::Rng& r) : LinearSystem<N, M>(SYSTEM_TYPE::GENERAL) { A0 = r.mat<N, N>(); A1 = r.mat<N, N>(); B0 = r.mat<N, M>(); B1 = r.mat<N, M>(); }
    Ltv* clone() const override { return new Ltv(*this); }
    Eigen::MatrixXd A(const StateVector<N>& x, const ControlVector<M>& u, double t) const { return A0 + A1 * (std::sin(t) + 0.3 * x(0) * u(0)); }
    Eigen::MatrixXd B(const StateVector<N>& x, const ControlVector<M>& u, double t) const { return B0 + B1 * (std::cos(t) + 0.2 * x(N - 1) - 0.1 * u(M - 1)); }
    const StateMatrix<N>& getDerivativeState(const StateVector<N>& x, const ControlVector<M>& u, const double t) override { a = A(x, u, t); return a; }
    const StateControlMatrix<N, M>& getDerivativeControl(const StateVector<N>& x, const ControlVector<M>& u, const double t) override { b = B(x, u, t); return b; }
};
template <int N, int M>
struct DLtv : DiscreteLinearSystem<N, M>
{
    Eigen::Matrix<double, N, N> A0, A1; Eigen::Matrix<double, N, M> B0, B1;
    DLtv(mon::Rng& r) { A0 = r.mat<N, N>(); A1 = r.mat<N, N>(); B0 = r.mat<N, M>(); B1 = r.mat<N, M>(); }
    DLtv* clone() const override { return new DLtv(*this); }
    Eigen::MatrixXd A(const StateVector<N>& x, const ControlVector<M>& u, const StateVector<N>& xn, int n, int s) const { return A0 * s + A1 * (n + 0.3 * x(0) * u(0) + 0.1 * xn(0)); }
    Eigen::MatrixXd B(const StateVector<N>& x, const ControlVector<M>& u, const StateVector<N>& xn, int n, int s) const { return B0 * s + B1 * (0.5 * n + 0.2 * x(N - 1) - 0.1 * u(M - 1) + xn(N - 1)); }
    void getAandB(const StateVector<N>& x, const ControlVector<M>& u, const StateVector<N>& xn, const int n, size_t s, StateMatrix<N>& a, StateControlMatrix<N, M>& b) override { a = A(x, u, xn, n, s); b = B(x, u, xn, n, s); }
};
template <int N, int M>
void ltv(Case& c)
{
    mon::Rng& r = c.rng;
    Ltv<N, M> s(r); DLtv<N, M> ds(r);
    std::unique_ptr<LinearSystem<N, M>> q(s.clone());
    std::unique_ptr<DiscreteLinearSystem<N, M>> dq(ds.clone());
    ControlVector<M> uc; uc = r.mat<M, 1>(-2, 2);
    for (int k = 0; k < 4; ++k)
    {
        StateVector<N> x, d; x = r.mat<N, 1>(-3, 3); ControlVector<M> u; u = r.mat<M, 1>(-3, 3); double t = r.uni(-3, 3); int n = r.in(-3, 9);
        q->computeControlledDynamics(x, t, u, d);
        c.nearm("ltv-dynamics", d, s.A(x, u, t) * x + s.B(x, u, t) * u, 1e-11);
        StateMatrix<N> A; StateControlMatrix<N, M> B;
        q->getDerivatives(A, B, x, u, t);
        c.nearm("ltv-A", A, s.A(x, u, t), 1e-13); c.nearm("ltv-B", B, s.B(x, u, t), 1e-13);
        StateVector<N> y; y = r.mat<N, 1>();
        dq->propagateControlledDynamics(x, n, u, y);
        c.nearm("dltv-dynamics", y, ds.A(x, u, x, n, 1) * x + ds.B(x, u, x, n, 1) * u, 1e-11);
        dq->getAandB(x, u, n, A, B);
        c.nearm("dltv-A", A, ds.A(x, u, x, n, 1), 1e-13); c.nearm("dltv-B", B, ds.B(x, u, x, n, 1), 1e-13);
        // closed with a constant controller, then opened again
        const bool closed = k % 2 == 0;
        if (closed) { q->setController(std::make_shared<ConstantController<N, M>>(uc)); }
        else q->setController(nullptr);
        ControlVector<M> ue; if (closed) ue = uc; else ue.setZero();
        q->computeDynamics(x, t, d);
        struct DC : DiscreteController<N, M>
        {
            Eigen::Matrix<double, M, N> K; ControlVector<M> k0;
            DC* clone() const override { return new DC(*this); }
            void computeControl(const StateVector<N>& x, const int n, ControlVector<M>& u) override { u = k0 * (1.0 + n) - K * x; }
        };
        auto dc = std::make_shared<DC>(); dc->K = r.mat<M, N>(); dc->k0 = uc;
        if (closed) dq->setController(dc); else dq->setController(nullptr);
        ControlVector<M> ud; if (closed) ud = uc * (1.0 + n) - dc->K * x; else ud.setZero();
        dq->propagateDynamics(x, n, y);
        c.nearm("dltv-closed", y, ds.A(x, ud, x, n, 1) * x + ds.B(x, ud, x, n, 1) * ud, 1e-10);
        c.nearm("ltv-closed", d, s.A(x, ue, t) * x + s.B(x, ue, t) * ue, 1e-11);
    }
}
SCENARIO(ltv_3_2) { ltv<3, 2>(c); }
SCENARIO(ltv_2_1) { ltv<2, 1>(c); }
SCENARIO(second_order)
{
    mon::Rng& r = c.rng;
    double w = r.uni(0.1, 20), z = r.uni(0, 3), g = r.uni(0.1, 5);
    double k = r.uni(0.1, 50), m = r.uni(0.1, 10), d = r.uni(0, 20), gg = r.uni(0.1, 4);
    const double w0 = w;
    SecondOrderSystem s(w, z, g), sm(k, m, d, gg), sd(w);
    std::unique_ptr<SecondOrderSystem> cl(s.clone());
    for (int i = 0; i < 5; ++i)
    {
        StateVector<2> x, o; x = r.mat<2, 1>(-3, 3); ControlVector<1> u; u = r.mat<1, 1>(-3, 3);
        auto law = [&](double W, double Z, double G) { return G * W * W * u(0) - 2 * Z * W * x(1) - W * W * x(0); };
        s.computeControlledDynamics(x, 0.1, u, o); c.near("velocity", o(0), x(1), 0); c.near("acceleration", o(1), law(w, z, g), 1e-12);
        cl->computeControlledDynamics(x, 0.1, u, o); c.near("clone", o(1), law(w, z, g), 1e-12);
        sd.computeControlledDynamics(x, 0.1, u, o); c.near("defaults", o(1), law(w0, 1, 1), 1e-12);
        // m*a + d*v + k*p = k*g*u
        sm.computeControlledDynamics(x, 0.1, u, o);
        c.near("mass-spring-damper", m * o(1) + d * x(1) + k * x(0), k * gg * u(0), 1e-10);
        w = r.uni(0.1, 20); z = r.uni(0, 3); g = r.uni(0.1, 5);
        s.setDynamics(w, z, g); cl->setDynamics(w, z, g);
    }
    c.check("parameters-valid", s.checkParameters());
    s.setDynamics(w, -z - 0.1, g); c.check("negative-damping", !s.checkParameters());
    s.setDynamics(-w, z, g); c.check("negative-frequency", !s.checkParameters());
    s.setDynamics(w, z, -g); c.check("negative-gain", !s.checkParameters());
    s.setDynamics(w, z, 0); c.check("zero-gain", !s.checkParameters());
}
// closed-loop DiscreteControlledSystem and history independence are covered in C22 (clones) and C10 (switching)
MON_MAIN
