// C05: GNRiccatiSolver computes the minimizer and the optimal feedback of an LQOC problem.
// Oracle: dense condensed QP (whole problem and all tail problems), independent of the Riccati recursion.
#include "sys.hpp"
#include <ct/optcon/optcon.h>
using namespace mon;
using ct::optcon::LQOCProblem;
using ct::optcon::GNRiccatiSolver;
using ct::optcon::NLOptConSettings;

template <int N, int M>
static void fill(Rng& r, LQOCProblem<N, M>& p)
{
    int K = p.getNumberOfStages();
    bool tv = r.coin(0.7), zeroQ = r.coin(0.2), unst = r.coin(0.3);
    for (int k = 0; k < K; ++k)
    {
        if (k > 0 && !tv)
        {
            p.A_[k] = p.A_[0]; p.B_[k] = p.B_[0]; p.Q_[k] = p.Q_[0]; p.R_[k] = p.R_[0]; p.P_[k] = p.P_[0]; p.qv_[k] = p.qv_[0]; p.rv_[k] = p.rv_[0]; p.b_[k] = p.b_[0];
            continue;
        }
        double a = unst ? 1.3 : 0.8;
        p.A_[k] = r.mat<N, N>(-a, a);
        if (r.coin()) p.A_[k] = Eigen::Matrix<double, N, N>::Identity() + 0.2 * r.mat<N, N>(-1, 1);
        p.B_[k] = r.mat<N, M>(-1, 1);
        p.b_[k] = r.coin(0.7) ? Eigen::Matrix<double, N, 1>(r.mat<N, 1>(-1, 1)) : Eigen::Matrix<double, N, 1>::Zero();
        // jointly convex stage cost
        Eigen::MatrixXd H = r.spd(N + M, 0.2, 3);
        if (zeroQ)
        {
            H.setZero();
            H.bottomRightCorner(M, M) = r.spd(M, 0.2, 2);
        }
        else if (r.coin(0.4)) { H.topRightCorner(N, M).setZero(); H.bottomLeftCorner(M, N).setZero(); }
        p.Q_[k] = H.topLeftCorner(N, N);
        p.R_[k] = H.bottomRightCorner(M, M);
        p.P_[k] = H.bottomLeftCorner(M, N);
        p.qv_[k] = r.mat<N, 1>(-1, 1);
        p.rv_[k] = r.mat<M, 1>(-1, 1);
        p.q_[k] = r.uni(-1, 1);
    }
    p.Q_[K] = r.coin(0.8) ? Eigen::MatrixXd(r.spd(N, 0.2, 5)) : Eigen::MatrixXd(Eigen::MatrixXd::Zero(N, N));
    p.qv_[K] = r.mat<N, 1>(-1, 1);
    p.b_[K] = r.mat<N, 1>(-1, 1);  // unused by definition
}
struct Tail
{
    Eigen::MatrixXd H, F;  // 1/2 u'Hu + u'(g + F x)
    Eigen::VectorXd g;
};
// condensed problem of stages k0..K with initial state x
template <int N, int M>
static Tail condense(const LQOCProblem<N, M>& p, int k0, int K, double eps)
{
    int n = K - k0;
    Tail t;
    t.H = Eigen::MatrixXd::Zero(n * M, n * M);
    t.F = Eigen::MatrixXd::Zero(n * M, N);
    t.g = Eigen::VectorXd::Zero(n * M);
    Eigen::MatrixXd G = Eigen::MatrixXd::Zero(N, n * M), Phi = Eigen::MatrixXd::Identity(N, N);
    Eigen::VectorXd s = Eigen::VectorXd::Zero(N);
    for (int k = k0; k <= K; ++k)
    {
        t.H += G.transpose() * p.Q_[k] * G;
        t.F += G.transpose() * p.Q_[k] * Phi;
        t.g += G.transpose() * (p.Q_[k] * s + p.qv_[k]);
        if (k == K) break;
        int o = (k - k0) * M;
        Eigen::MatrixXd E = Eigen::MatrixXd::Zero(M, n * M);
        E.block(0, o, M, M).setIdentity();
        t.H += E.transpose() * (p.R_[k] + eps * Eigen::Matrix<double, M, M>::Identity()) * E;
        Eigen::MatrixXd C = E.transpose() * p.P_[k] * G;
        t.H += C + C.transpose();
        t.F += E.transpose() * p.P_[k] * Phi;
        t.g += E.transpose() * (p.P_[k] * s + p.rv_[k]);
        G = (p.A_[k] * G + p.B_[k] * E).eval();
        Phi = (p.A_[k] * Phi).eval();
        s = (p.A_[k] * s + p.b_[k]).eval();
    }
    return t;
}
template <int N, int M>
static void verify(Case& c, const std::string& g, const LQOCProblem<N, M>& p, int K, GNRiccatiSolver<N, M>& s, double eps)
{
    auto &x = s.getSolutionState();
    auto &u = s.getSolutionControl();
    auto &L = s.getSolutionFeedback();
    auto &lv = s.get_lv();
    if (!c.check(g + "_sizes", (int)x.size() == K + 1 && (int)u.size() == K && (int)L.size() == K && (int)lv.size() == K)) return;
    Tail t = condense(p, 0, K, eps);
    Eigen::LDLT<Eigen::MatrixXd> F(t.H);
    double cond = 1e-12 * (1 + t.H.norm()) * (1 + F.solve(Eigen::MatrixXd::Identity(K * M, K * M)).norm());
    if (cond > 1e-6) throw Skip();
    Eigen::VectorXd uo = -F.solve(t.g);
    double tol = 1e-8 + 1e2 * cond;
    Eigen::Matrix<double, N, 1> xs = Eigen::Matrix<double, N, 1>::Zero();
    for (int k = 0; k < K; ++k)
    {
        c.nearm(g + "_control", u[k], uo.segment(k * M, M), tol);
        c.nearm(g + "_state", x[k], xs, tol * (1 + uo.norm()));
        xs = (p.A_[k] * xs + p.B_[k] * uo.segment(k * M, M) + p.b_[k]).eval();
        c.nearm(g + "_dynamics", x[k + 1], p.A_[k] * x[k] + p.B_[k] * u[k] + p.b_[k], 1e-9);
    }
    c.nearm(g + "_state_end", x[K], xs, tol * (1 + uo.norm()));
    for (int k = 0; k < K; ++k)
    {
        Tail w = k == 0 ? t : condense(p, k, K, eps);
        Eigen::LDLT<Eigen::MatrixXd> W(w.H);
        c.nearm(g + "_feedback", L[k], (-W.solve(w.F)).topRows(M), tol);
        c.nearm(g + "_feedforward", lv[k], (-W.solve(w.g)).head(M), tol);
    }
}
template <int N, int M>
static NLOptConSettings conf(Rng& r, double& eps)
{
    NLOptConSettings s;
    s.nThreadsEigen = 1;
    s.fixedHessianCorrection = r.coin();
    s.epsilon = s.fixedHessianCorrection ? (r.coin() ? 0.0 : r.uni(1e-4, 0.5)) : r.uni(0, 1e-6);
    eps = s.fixedHessianCorrection ? s.epsilon : 0;
    s.recordSmallestEigenvalue = r.coin();
    return s;
}
template <int N, int M>
static void history(Case& c)
{
    Rng& r = c.rng;
    int K = r.in(1, 12);
    typedef GNRiccatiSolver<N, M> S;
    std::shared_ptr<S> s;
    double eps;
    NLOptConSettings st = conf<N, M>(r, eps);
    auto p = std::make_shared<LQOCProblem<N, M>>(K);
    int how = r.in(0, 2);
    c.cfg = "how" + str(how) + " K" + str(K);
    if (r.coin()) p->setZero();
    fill<N, M>(r, *p);
    if (how == 0) s.reset(new S());
    else if (how == 1) s.reset(new S(r.in(1, 12)));
    else s.reset(new S(p));
    s->configure(st);
    if (how != 2 || r.coin()) s->setProblem(p);
    int n = r.in(1, 5);
    for (int i = 0; i < n; ++i)
    {
        if (i > 0)
        {
            int op = r.in(0, 3);
            c.cfg += " op" + str(op);
            if (op == 0)  // same problem object, other data
                fill<N, M>(r, *p);
            else if (op == 1)  // other horizon
            {
                K = r.in(1, 12);
                p->changeNumStages(K);
                if (r.coin()) p->setZero();
                fill<N, M>(r, *p);
                s->setProblem(p);
            }
            else if (op == 2)  // other object
            {
                K = r.in(1, 12);
                p = std::make_shared<LQOCProblem<N, M>>();
                p->changeNumStages(K);
                fill<N, M>(r, *p);
                s->setProblem(p);
            }
            else
            {
                st = conf<N, M>(r, eps);
                s->configure(st);
            }
        }
        c.cfg += " K" + str(K) + " fix" + str(st.fixedHessianCorrection) + " eps" + str(st.epsilon);
        if (r.coin()) s->solve();
        else
            for (int k = K - 1; k >= 0; --k) s->solveSingleStage(k);
        s->computeStatesAndControls();
        s->computeFeedbackMatrices();
        s->compute_lv();
        verify<N, M>(c, "lqoc", *p, K, *s, eps);
        if (st.recordSmallestEigenvalue)
        {
            // smallest eigenvalue of the input Hessians over all stages: Schur complement of the tail problems
            double want = 1e300;
            for (int k = 0; k < K; ++k)
            {
                Tail w = condense(*p, k, K, eps);
                int m = (K - k - 1) * M;
                Eigen::MatrixXd H = w.H.topLeftCorner(M, M);
                if (m > 0) H -= w.H.topRightCorner(M, m) * w.H.bottomRightCorner(m, m).ldlt().solve(w.H.bottomLeftCorner(m, M));
                want = std::min(want, Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd>(H).eigenvalues().minCoeff());
            }
            c.near("smallest_eigenvalue", s->getSmallestEigenvalue(), want, 1e-7);
        }
    }
}
SCENARIO_W(history_3_2, 4) { history<3, 2>(c); }
SCENARIO_W(history_1_1, 2) { history<1, 1>(c); }
SCENARIO_W(history_2_4, 2) { history<2, 4>(c); }
SCENARIO_W(history_1_3, 1) { history<1, 3>(c); }
SCENARIO_W(history_5_1, 2) { history<5, 1>(c); }

// problem built from a time-invariant linear system and a quadratic cost: the solution minimizes the actual cost
SCENARIO_W(from_lti, 2)
{
    Rng& r = c.rng;
    static const int N = 3, M = 2;
    typedef Eigen::Matrix<double, N, 1> X;
    typedef Eigen::Matrix<double, M, 1> U;
    int K = r.in(1, 8);
    double dt = r.uni(0.01, 1);
    ct::core::StateMatrix<N> A = r.mat<N, N>(-0.8, 0.8);
    ct::core::StateControlMatrix<N, M> B = r.mat<N, M>(-1, 1);
    struct Lti : ct::core::DiscreteLinearSystem<N, M>
    {
        ct::core::StateMatrix<N> a; ct::core::StateControlMatrix<N, M> b;
        Lti* clone() const override { return new Lti(*this); }
        void getAandB(const ct::core::StateVector<N>&, const ct::core::ControlVector<M>&, const ct::core::StateVector<N>&, const int, size_t, ct::core::StateMatrix<N>& x, ct::core::StateControlMatrix<N, M>& y) override { x = a; y = b; }
    } sys;
    sys.a = A;
    sys.b = B;
    Eigen::Matrix<double, N, N> Q = r.spd(N, 0.1, 3), Qf = r.spd(N, 0.1, 3);
    Eigen::Matrix<double, M, M> R = r.spd(M, 0.2, 3);
    X xn = r.mat<N, 1>(-1, 1), xf = r.mat<N, 1>(-1, 1), off = r.mat<N, 1>(-1, 1);
    U un = r.mat<M, 1>(-1, 1);
    ct::optcon::CostFunctionQuadraticSimple<N, M> cost(Q, R, xn, un, xf, Qf);
    auto p = std::make_shared<LQOCProblem<N, M>>(r.in(1, 5));
    p->changeNumStages(K);
    p->setFromTimeInvariantLinearQuadraticProblem(sys, cost, off, dt);
    GNRiccatiSolver<N, M> s;
    double eps;
    NLOptConSettings st = conf<N, M>(r, eps);
    if (eps != 0) st.epsilon = 0;
    s.configure(st);
    s.setProblem(p);
    s.solve();
    s.computeStatesAndControls();
    auto J = [&](const Eigen::VectorXd& u) {
        X x = X::Zero();
        double j = 0;
        for (int k = 0; k < K; ++k)
        {
            U uk = u.segment(k * M, M);
            j += dt * 0.5 * ((x - xn).dot(Q * (x - xn)) + (uk - un).dot(R * (uk - un)));
            x = (A * x + B * uk + off).eval();
        }
        return j + 0.5 * (x - xf).dot(Qf * (x - xf));
    };
    Eigen::VectorXd u(K * M);
    for (int k = 0; k < K; ++k) u.segment(k * M, M) = s.getSolutionControl()[k];
    for (int i = 0; i < K * M; ++i)
    {
        Eigen::VectorXd e = Eigen::VectorXd::Unit(K * M, i);
        c.near("lti_stationary", J(u + e) - J(u - e), 0.0, 1e-8 * (1 + std::abs(J(u))));
        c.check("lti_minimum", J(u) <= J(u + 1e-2 * r.uni(-1, 1) * e) + 1e-12, "");
    }
}
// constraint data of the LQ problem: bounds relative to the nominal point, index bookkeeping, rejection by the Riccati solver
SCENARIO_W(constraints, 1)
{
    Rng& r = c.rng;
    static const int N = 4, M = 3;
    int K = r.in(1, 6);
    auto p = std::make_shared<LQOCProblem<N, M>>(K);
    p->setZero();
    fill<N, M>(r, *p);
    c.check("unconstrained", !p->isConstrained());
    auto pick = [&](int n, int& m) {
        std::vector<int> v;
        do { v.clear(); for (int i = 0; i < n; ++i) if (r.coin()) v.push_back(i); } while (v.empty());
        m = v.size();
        return Eigen::VectorXi(Eigen::Map<Eigen::VectorXi>(v.data(), m));
    };
    int kind = r.in(0, 3), m;
    if (kind == 0)
    {
        auto sp = pick(M, m);
        Eigen::VectorXd lb = r.dvec(m, -2, 0), ub = r.dvec(m, 0, 2);
        ct::core::ControlVectorArray<M> nom(K);
        for (auto& v : nom) v = r.mat<M, 1>(-1, 1);
        p->setInputBoxConstraints(m, lb, ub, sp, nom);
        c.check("input_box_flag", p->isConstrained() && p->isInputBoxConstrained() && !p->isStateBoxConstrained() && !p->isGeneralConstrained());
        for (int k = 0; k < K; ++k)
        {
            c.check("input_box_count", p->nbu_[k] == m);
            for (int i = 0; i < m; ++i)
            {
                c.check("input_box_index", p->u_I_[k](i) == sp(i));
                c.near("input_box_lb", p->u_lb_[k](i), lb(i) - nom[k](sp(i)), 1e-12);
                c.near("input_box_ub", p->u_ub_[k](i), ub(i) - nom[k](sp(i)), 1e-12);
            }
        }
    }
    else if (kind == 1)
    {
        auto sp = pick(N, m);
        Eigen::VectorXd lb = r.dvec(m, -2, 0), ub = r.dvec(m, 0, 2);
        ct::core::StateVectorArray<N> nom(K + 1);
        for (auto& v : nom) v = r.mat<N, 1>(-1, 1);
        p->setIntermediateStateBoxConstraints(m, lb, ub, sp, nom);
        p->setTerminalBoxConstraints(m, lb, ub, sp, nom[K]);
        c.check("state_box_flag", p->isConstrained() && p->isStateBoxConstrained() && !p->isInputBoxConstrained() && !p->isGeneralConstrained());
        for (int k = 0; k <= K; ++k)
        {
            c.check("state_box_count", p->nbx_[k] == m);
            for (int i = 0; i < m; ++i)
            {
                c.check("state_box_index", p->x_I_[k](i) == sp(i));
                c.near("state_box_lb", p->x_lb_[k](i), lb(i) - nom[k](sp(i)), 1e-12);
                c.near("state_box_ub", p->x_ub_[k](i), ub(i) - nom[k](sp(i)), 1e-12);
            }
        }
    }
    else if (kind == 2)
    {
        m = r.in(1, 4);
        Eigen::VectorXd lb = r.dvec(m, -2, 0), ub = r.dvec(m, 0, 2);
        Eigen::MatrixXd C = r.dmat(m, N, -1, 1), D = r.dmat(m, M, -1, 1);
        p->setGeneralConstraints(lb, ub, C, D);
        c.check("general_flag", p->isConstrained() && p->isGeneralConstrained() && !p->isInputBoxConstrained() && !p->isStateBoxConstrained());
        for (int k = 0; k <= K; ++k)
        {
            c.check("general_count", p->ng_[k] == m);
            c.nearm("general_C", p->C_[k], C, 0);
            c.nearm("general_D", p->D_[k], D, 0);
            c.nearm("general_lb", p->d_lb_[k], lb, 0);
        }
    }
    else
    {
        auto sp = pick(N, m);
        p->setTerminalBoxConstraints(m, r.dvec(m, -2, 0), r.dvec(m, 0, 2), sp, ct::core::StateVector<N>::Zero());
        c.check("terminal_flag", p->isConstrained() && p->isStateBoxConstrained());
        c.check("terminal_count", p->nbx_[K] == m);
    }
    GNRiccatiSolver<N, M> s;
    bool thrown = false;
    try { s.setProblem(p); } catch (std::runtime_error&) { thrown = true; }
    c.check("riccati_rejects_constraints", thrown, "a constrained problem was accepted by the unconstrained solver");
    p->setZero();
    c.check("unconstrained_again", !p->isConstrained());
    fill<N, M>(r, *p);
    double eps;
    s.configure(conf<N, M>(r, eps));
    s.setProblem(p);
    s.solve();
    s.computeStatesAndControls();
    verify<N, M>(c, "after_reset", *p, K, s, eps);
}
MON_MAIN
