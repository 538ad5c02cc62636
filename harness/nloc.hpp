// Random nonlinear optimal control problems for the NLOC solvers and an independent reference iteration.
// With -DDISC the discrete-time front end of the solver is used, otherwise the continuous-time one.
#pragma once
#include "sys.hpp"
#include <atomic>
#include <thread>
#include <ct/optcon/optcon.h>

namespace nl {
using ct::optcon::NLOptConSettings;
using ct::optcon::LineSearchSettings;
typedef NLOptConSettings::NLOCP_ALGORITHM ALG;

// watches a family of objects: no single instance may be used by two threads at once; injects delays
struct Watch
{
    std::atomic<long> clashes{0}, uses{0};
    std::atomic<uint64_t> order{0};  // hash of the sequence of threads that entered the callbacks
    static uint64_t me() { static std::atomic<int> n{0}; static thread_local int id = ++n; return id; }
    bool delays = false;
    void delay()
    {
        static thread_local uint64_t s = 0x9E3779B97F4A7C15ull * (1 + std::hash<std::thread::id>()(std::this_thread::get_id()));
        s ^= s << 13; s ^= s >> 7; s ^= s << 17;
        unsigned k = s % 97;
        if (k == 0) usleep(20 + s / 97 % 150);
        else if (k < 8) std::this_thread::yield();
    }
};
struct Guard
{
    std::atomic<int> busy{0};
    Guard() {}
    Guard(const Guard&) {}
    Guard& operator=(const Guard&) { return *this; }
};
struct Use
{
    Guard& g;
    Use(Guard& gg, Watch* w) : g(gg)
    {
        if (g.busy.fetch_add(1, std::memory_order_relaxed) != 0 && w) w->clashes++;
        if (w)
        {
            uint64_t n = w->uses.fetch_add(1, std::memory_order_relaxed);
            w->order.fetch_add((n + 1) * 0x9E3779B97F4A7C15ull * (w->me() * 2 + 1), std::memory_order_relaxed);
            if (w->delays) w->delay();
        }
    }
    ~Use() { g.busy.fetch_sub(1, std::memory_order_relaxed); }
};

template <int N, int M>
struct Model  // xdot = Dyn + cub .* x^3
{
    typedef Eigen::Matrix<double, N, 1> X;
    typedef Eigen::Matrix<double, M, 1> U;
    Dyn<N, M> d;
    X cub = X::Zero();
    static Model random(Rng& r, int kind)  // 0 LTI, 1 LTV (affine), 2 nonlinear, 3 nonlinear that can blow up
    {
        Model m;
        m.d = Dyn<N, M>::random(r, kind >= 2 ? 1.0 : 0.0, kind != 0);
        if (kind == 3) m.cub = r.mat<N, 1>(-0.2, 1.5);
        if (kind == 1)
        {
            m.d.G = r.mat<N, N>(-1, 1);  // forcing that depends on time only: affine time-varying
            m.d.H.setZero();
            m.d.L.setZero();
        }
        return m;
    }
    X f(const X& x, const U& u, double t) const { return d.fd(x, u, t) + X(cub.array() * x.array().cube()); }
    Eigen::Matrix<double, N, N> fx(const X& x, const U& u, double t) const
    {
        Eigen::Matrix<double, N, N> a = d.fx(x, u, t);
        a.diagonal() += X(3 * cub.array() * x.array().square());
        return a;
    }
    Eigen::Matrix<double, N, M> fu(const X& x, const U& u, double t) const { return d.fu(x, u, t); }
};

#ifndef DISC
template <int N, int M>
struct Sys : public ct::core::ControlledSystem<N, M>
{
    Model<N, M> m; Watch* w; Guard g;
    Sys(const Model<N, M>& mm, Watch* ww = nullptr) : m(mm), w(ww) {}
    Sys* clone() const override { return new Sys(*this); }
    void computeControlledDynamics(const ct::core::StateVector<N>& x, const double& t, const ct::core::ControlVector<M>& u, ct::core::StateVector<N>& dx) override
    {
        Use use(g, w);
        dx = m.f(x, u, t);
    }
};
template <int N, int M>
struct Lin : public ct::core::LinearSystem<N, M>
{
    typedef ct::core::LinearSystem<N, M> B;
    Model<N, M> m; Watch* w; Guard g;
    typename B::state_matrix_t a;
    typename B::state_control_matrix_t b;
    Lin(const Model<N, M>& mm, double, Watch* ww = nullptr) : m(mm), w(ww) {}
    Lin* clone() const override { return new Lin(*this); }
    const typename B::state_matrix_t& getDerivativeState(const ct::core::StateVector<N>& x, const ct::core::ControlVector<M>& u, const double t) override
    {
        Use use(g, w);
        a = m.fx(x, u, t);
        return a;
    }
    const typename B::state_control_matrix_t& getDerivativeControl(const ct::core::StateVector<N>& x, const ct::core::ControlVector<M>& u, const double t) override
    {
        Use use(g, w);
        b = m.fu(x, u, t);
        return b;
    }
};
template <int N, int M> using Problem = ct::optcon::ContinuousOptConProblem<N, M>;
template <int N, int M> using Solver = ct::optcon::NLOptConSolver<N, M>;
template <int N, int M>
std::shared_ptr<Sys<N, M>> mkSys(const Model<N, M>& m, double, Watch* w) { return std::make_shared<Sys<N, M>>(m, w); }
#else
template <int N, int M>
struct Sys : public ct::core::DiscreteControlledSystem<N, M>
{
    Model<N, M> m; double dt; Watch* w; Guard g;
    Sys(const Model<N, M>& mm, double d, Watch* ww = nullptr) : m(mm), dt(d), w(ww) {}
    Sys* clone() const override { return new Sys(*this); }
    void propagateControlledDynamics(const ct::core::StateVector<N>& x, const int n, const ct::core::ControlVector<M>& u, ct::core::StateVector<N>& xn) override
    {
        Use use(g, w);
        xn = x + dt * m.f(x, u, n * dt);
    }
};
template <int N, int M>
struct Lin : public ct::core::DiscreteLinearSystem<N, M>
{
    typedef ct::core::DiscreteLinearSystem<N, M> B;
    Model<N, M> m; double dt; Watch* w; Guard g;
    Lin(const Model<N, M>& mm, double d, Watch* ww = nullptr) : m(mm), dt(d), w(ww) {}
    Lin* clone() const override { return new Lin(*this); }
    void getAandB(const ct::core::StateVector<N>& x, const ct::core::ControlVector<M>& u, const ct::core::StateVector<N>&, const int n, size_t,
        typename B::state_matrix_t& A, typename B::state_control_matrix_t& Bm) override
    {
        Use use(g, w);
        A = Eigen::Matrix<double, N, N>::Identity() + dt * m.fx(x, u, n * dt);
        Bm = dt * m.fu(x, u, n * dt);
    }
};
template <int N, int M> using Problem = ct::optcon::DiscreteOptConProblem<N, M>;
template <int N, int M> using Solver = ct::optcon::NLOptConSolver<N, M, N / 2, N / 2, double, false>;
template <int N, int M>
std::shared_ptr<Sys<N, M>> mkSys(const Model<N, M>& m, double dt, Watch* w) { return std::make_shared<Sys<N, M>>(m, dt, w); }
#endif

template <int N, int M>
struct CostM  // user-defined cost with known derivatives, time-varying reference, cross terms
{
    typedef Eigen::Matrix<double, N, 1> X;
    typedef Eigen::Matrix<double, M, 1> U;
    Eigen::Matrix<double, N, N> Q, Qf;
    Eigen::Matrix<double, M, M> R;
    Eigen::Matrix<double, M, N> P;
    X x0r, x1r, xf, q, nq;  // nq: weights of the non-quadratic term sqrt(1+x^2)
    U ur, r;
    double w, c0;
    static CostM random(Rng& g, bool quadratic)
    {
        CostM c;
        c.Q = g.spd(N, 0.2, 3);
        c.Qf = g.spd(N, 0.2, 6);
        c.R = g.spd(M, 0.3, 2);
        c.P = g.coin() ? Eigen::Matrix<double, M, N>(g.mat<M, N>(-0.05, 0.05)) : Eigen::Matrix<double, M, N>::Zero();
        c.x0r = g.mat<N, 1>(-0.5, 0.5);
        c.x1r = g.coin() ? X(g.mat<N, 1>(-0.5, 0.5)) : X(X::Zero());
        c.xf = g.mat<N, 1>(-0.5, 0.5);
        c.q = g.mat<N, 1>(-0.3, 0.3);
        c.nq = quadratic ? X(X::Zero()) : X(g.mat<N, 1>(0, 1));
        c.ur = g.mat<M, 1>(-0.5, 0.5);
        c.r = g.mat<M, 1>(-0.3, 0.3);
        c.w = g.uni(-3, 3);
        c.c0 = g.uni(0, 1);
        return c;
    }
    X e(const X& x, double t) const { return x - x0r - x1r * std::sin(w * t); }
    double inter(const X& x, const U& u, double t) const
    {
        X d = e(x, t); U v = u - ur;
        return c0 + 0.5 * d.dot(Q * d) + 0.5 * v.dot(R * v) + v.dot(P * d) + q.dot(x) + r.dot(u) + nq.dot(X((1 + x.array().square()).sqrt()));
    }
    double term(const X& x) const { X d = x - xf; return 0.5 * d.dot(Qf * d); }
    X lx(const X& x, const U& u, double t) const { return Q * e(x, t) + P.transpose() * (u - ur) + q + X(nq.array() * x.array() / (1 + x.array().square()).sqrt()); }
    U lu(const X& x, const U& u, double t) const { return R * (u - ur) + P * e(x, t) + r; }
    Eigen::Matrix<double, N, N> lxx(const X& x) const
    {
        Eigen::Matrix<double, N, N> h = Q;
        h.diagonal() += X(nq.array() * (1 + x.array().square()).pow(-1.5));
        return h;
    }
};
template <int N, int M>
struct Cost : public ct::optcon::CostFunctionQuadratic<N, M>
{
    typedef ct::optcon::CostFunctionQuadratic<N, M> B;
    CostM<N, M> m; Watch* w; Guard g;
    Cost(const CostM<N, M>& mm, Watch* ww = nullptr) : m(mm), w(ww) {}
    Cost* clone() const override { return new Cost(*this); }
    double evaluateIntermediate() override { Use u(g, w); return m.inter(this->x_, this->u_, this->t_); }
    double evaluateTerminal() override { Use u(g, w); return m.term(this->x_); }
    typename B::state_vector_t stateDerivativeIntermediate() override { Use u(g, w); return m.lx(this->x_, this->u_, this->t_); }
    typename B::state_vector_t stateDerivativeTerminal() override { Use u(g, w); return m.Qf * (this->x_ - m.xf); }
    typename B::state_matrix_t stateSecondDerivativeIntermediate() override { Use u(g, w); return m.lxx(this->x_); }
    typename B::state_matrix_t stateSecondDerivativeTerminal() override { return m.Qf; }
    typename B::control_vector_t controlDerivativeIntermediate() override { Use u(g, w); return m.lu(this->x_, this->u_, this->t_); }
    typename B::control_matrix_t controlSecondDerivativeIntermediate() override { return m.R; }
    typename B::control_state_matrix_t stateControlDerivativeIntermediate() override { return m.P; }
};

template <int N, int M>
struct Traj
{
    typedef Eigen::Matrix<double, N, 1> X;
    typedef Eigen::Matrix<double, M, 1> U;
    std::vector<X> x;
    std::vector<U> u;
    std::vector<Eigen::Matrix<double, M, N>> L;
};

inline NLOptConSettings settings(Rng& r, int nThreads)
{
    NLOptConSettings s;
    s.dt = r.uni(0.02, 0.1);
    s.nThreads = nThreads;
    s.nThreadsEigen = 1;
    s.printSummary = false;
    s.min_cost_improvement = 1e-9;
    s.maxDefectSum = 1e-9;
    s.nlocp_algorithm = (ALG)r.in(0, 6);
    s.K_shot = s.nlocp_algorithm == ALG::ILQR ? 1 : (r.coin(0.4) ? 1 : r.in(2, 8));
    if (s.nlocp_algorithm == ALG::GNMS) s.K_shot = 1;
    s.integrator = ct::core::IntegrationType::EULER;
    s.discretization = NLOptConSettings::APPROXIMATION::FORWARD_EULER;
    s.meritFunctionRho = r.coin(0.7) ? r.uni(0.5, 20) : 0.0;
    s.fixedHessianCorrection = r.coin(0.3);
    s.epsilon = s.fixedHessianCorrection ? 0.0 : 1e-7;
    auto& ls = s.lineSearchSettings;
    ls.type = (LineSearchSettings::TYPE)r.in(0, 2);
    ls.maxIterations = r.in(1, 12);
    ls.alpha_0 = r.coin(0.6) ? 1.0 : r.uni(0.3, 2.5);
    ls.n_alpha = r.coin(0.6) ? 0.5 : r.uni(0.2, 0.9);
    return s;
}
inline std::string show(const NLOptConSettings& s, int K)
{
    std::ostringstream o;
    o << "alg=" << int(s.nlocp_algorithm) << " K=" << K << " Kshot=" << s.K_shot << " Ksim=" << s.K_sim << " integ=" << int(s.integrator) << " ls=" << int(s.lineSearchSettings.type)
      << " lsmax=" << s.lineSearchSettings.maxIterations << " a0=" << s.lineSearchSettings.alpha_0 << " na=" << s.lineSearchSettings.n_alpha
      << " dt=" << s.dt << " rho=" << s.meritFunctionRho << " threads=" << s.nThreads << " fixH=" << s.fixedHessianCorrection;
    return o.str();
}

// one solver step of length dt with constant input
template <int N, int M>
Eigen::Matrix<double, N, 1> step(const Model<N, M>& m, const NLOptConSettings& s, const Eigen::Matrix<double, N, 1>& x0, const Eigen::Matrix<double, M, 1>& u, int k)
{
    typedef Eigen::Matrix<double, N, 1> X;
    auto f = [&](const X& x, double t) { return X(m.f(x, u, t)); };
#ifdef DISC
    return x0 + s.dt * f(x0, k * s.dt);
#else
    X x = x0;
    double h = s.dt / s.K_sim;
    for (int i = 0; i < s.K_sim; ++i)
    {
        double t = k * s.dt + i * h;
        bool rk = s.integrator == ct::core::IntegrationType::RK4 || s.integrator == ct::core::IntegrationType::RK4CT;
        x = rk ? rk4Step(f, x, t, h) : eulerStep(f, x, t, h);
    }
    return x;
#endif
}
template <int N, int M>
double costOf(const CostM<N, M>& c, const std::vector<Eigen::Matrix<double, N, 1>>& x, const std::vector<Eigen::Matrix<double, M, 1>>& u, double dt)
{
    double J = 0;
    for (size_t k = 0; k < u.size(); ++k) J += dt * c.inter(x[k], u[k], k * dt);
    return J + c.term(x[u.size()]);
}
inline int shotLen(const NLOptConSettings& s, int K)
{
    bool ss = s.nlocp_algorithm == ALG::ILQR || s.nlocp_algorithm == ALG::SS_OL || s.nlocp_algorithm == ALG::SS_CL;
    return ss ? K : std::min(K, s.K_shot);
}
inline bool closedLoop(const NLOptConSettings& s)
{
    return s.nlocp_algorithm == ALG::ILQR || s.nlocp_algorithm == ALG::MS_ILQR || s.nlocp_algorithm == ALG::SS_CL || s.nlocp_algorithm == ALG::GNMS_M_CL;
}
template <int N, int M>
double defectL1(const Model<N, M>& m, const NLOptConSettings& s, const std::vector<Eigen::Matrix<double, N, 1>>& x, const std::vector<Eigen::Matrix<double, M, 1>>& u)
{
    double d = 0;
    for (size_t k = 0; k < u.size(); ++k) d += (step<N, M>(m, s, x[k], u[k], k) - x[k + 1]).template lpNorm<1>();
    return d;
}
template <int N, int M>
typename Solver<N, M>::Policy_t guess(const Traj<N, M>& g, double dt)
{
    int K = g.u.size();
    ct::core::StateVectorArray<N> x(g.x.size());
    ct::core::ControlVectorArray<M> u(K);
    ct::core::FeedbackArray<N, M> L(K);
    for (size_t k = 0; k < g.x.size(); ++k) x[k] = g.x[k];
    for (int k = 0; k < K; ++k) { u[k] = g.u[k]; L[k] = g.L[k]; }
    return typename Solver<N, M>::Policy_t(x, u, L, dt);
}
template <int N, int M>
Traj<N, M> solution(Solver<N, M>& s)
{
    Traj<N, M> t;
    auto p = s.getSolution();
    for (size_t k = 0; k < p.x_ref().size(); ++k) t.x.push_back(p.x_ref()[k]);
    for (size_t k = 0; k < p.uff().size(); ++k) { t.u.push_back(p.uff()[k]); t.L.push_back(p.K()[k]); }
    return t;
}
template <int N, int M>
Traj<N, M> randomGuess(Rng& r, const Eigen::Matrix<double, N, 1>& x0, int K, double amp = 1)
{
    Traj<N, M> g;
    bool fb = r.coin(0.3);
    for (int k = 0; k <= K; ++k) g.x.push_back(k == 0 ? x0 : (x0 + amp * r.mat<N, 1>(-0.5, 0.5)).eval());
    for (int k = 0; k < K; ++k)
    {
        g.u.push_back(amp * r.mat<M, 1>(-0.5, 0.5));
        g.L.push_back(fb ? Eigen::Matrix<double, M, N>(r.mat<M, N>(-0.2, 0.2)) : Eigen::Matrix<double, M, N>::Zero());
    }
    return g;
}

// ---------------------------------------------------------------- reference iteration (Euler / discrete, exact Jacobians)
template <int N, int M>
struct Ref
{
    typedef Eigen::Matrix<double, N, 1> X;
    typedef Eigen::Matrix<double, M, 1> U;
    Model<N, M> m;
    CostM<N, M> c;
    NLOptConSettings s;
    Traj<N, M> t;
    std::vector<X> xref;
    int K;
    double alpha = -1, margin = 1e300;  // accepted step, smallest relative distance of a candidate from the acceptance threshold
    // rolls out the shots; returns false if something is not finite
    bool roll(std::vector<X>& x, std::vector<U>& u, const std::vector<X>& ref) const
    {
        int n = shotLen(s, K);
        bool ok = true;
        for (int k0 = 0; k0 < K; k0 += n)
        {
            X xi = x[k0];
            for (int i = k0; i < std::min(K, k0 + n); ++i)
            {
                if (i > k0) x[i] = xi;
                if (closedLoop(s)) u[i] += t.L[i] * (xi - ref[i]);
                xi = step<N, M>(m, s, xi, u[i], i);
                if (i == K - 1) x[K] = xi;
            }
        }
        for (auto& v : x) ok = ok && v.allFinite();
        for (auto& v : u) ok = ok && v.allFinite();
        return ok;
    }
    double merit(const std::vector<X>& x, const std::vector<U>& u) const
    {
        return costOf<N, M>(c, x, u, s.dt) + (s.lineSearchSettings.type == LineSearchSettings::NONE ? 0.0 : s.meritFunctionRho * defectL1<N, M>(m, s, x, u));
    }
    void init(const Traj<N, M>& g) { t = g; K = g.u.size(); first = true; }
    bool first = true;
    void iterate()
    {
        if (first)
        {
            if (!roll(t.x, t.u, std::vector<X>(t.x))) throw mon::Skip();
            first = false;
        }
        // LQ approximation and backward pass
        std::vector<Eigen::Matrix<double, N, N>> A(K);
        std::vector<Eigen::Matrix<double, N, M>> B(K);
        std::vector<X> b(K), dx(K + 1);
        std::vector<U> lv(K), du(K);
        std::vector<Eigen::Matrix<double, M, N>> L(K);
        Eigen::Matrix<double, N, N> S = c.Qf;
        X sv = c.Qf * (t.x[K] - c.xf);
        for (int k = K - 1; k >= 0; --k)
        {
            double tt = k * s.dt;
            A[k] = Eigen::Matrix<double, N, N>::Identity() + s.dt * m.fx(t.x[k], t.u[k], tt);
            B[k] = s.dt * m.fu(t.x[k], t.u[k], tt);
            b[k] = step<N, M>(m, s, t.x[k], t.u[k], k) - t.x[k + 1];
            Eigen::Matrix<double, M, M> H = s.dt * c.R + B[k].transpose() * S * B[k];
            Eigen::Matrix<double, M, N> G = s.dt * c.P + B[k].transpose() * S * A[k];
            U g = s.dt * c.lu(t.x[k], t.u[k], tt) + B[k].transpose() * (sv + S * b[k]);
            Eigen::LDLT<Eigen::Matrix<double, M, M>> F(H);
            L[k] = -F.solve(G);
            lv[k] = -F.solve(g);
            X svn = s.dt * c.lx(t.x[k], t.u[k], tt) + A[k].transpose() * (sv + S * b[k]) + G.transpose() * lv[k];
            Eigen::Matrix<double, N, N> Sn = s.dt * c.lxx(t.x[k]) + A[k].transpose() * S * A[k] + G.transpose() * L[k];
            S = 0.5 * (Sn + Sn.transpose());
            sv = svn;
        }
        dx[0].setZero();
        for (int k = 0; k < K; ++k)
        {
            du[k] = lv[k] + L[k] * dx[k];
            dx[k + 1] = A[k] * dx[k] + B[k] * du[k] + b[k];
        }
        // update direction of the algorithm
        bool useLv = s.nlocp_algorithm == ALG::ILQR || s.nlocp_algorithm == ALG::MS_ILQR;
        bool moveRef = s.nlocp_algorithm == ALG::SS_CL || s.nlocp_algorithm == ALG::GNMS_M_CL;
        bool moveX = s.nlocp_algorithm != ALG::ILQR;
        for (int k = 0; k < K; ++k)
            t.L[k] = closedLoop(s) ? L[k] : Eigen::Matrix<double, M, N>(Eigen::Matrix<double, M, N>::Zero());
        double m0 = merit(t.x, t.u);
        auto& ls = s.lineSearchSettings;
        bool none = ls.type == LineSearchSettings::NONE;
        double a = none ? 1.0 : ls.alpha_0;
        alpha = 0;
        margin = 1e300;
        for (size_t it = 0; it < (none ? 1u : ls.maxIterations); ++it, a *= ls.n_alpha)
        {
            Traj<N, M> n = t;
            std::vector<X> ref = t.x;
            for (int k = 0; k < K; ++k) n.u[k] += a * (useLv ? lv[k] : du[k]);
            for (int k = 0; k <= K; ++k)
            {
                if (moveX) n.x[k] += a * dx[k];
                if (moveRef) ref[k] += a * dx[k];
            }
            bool ok = roll(n.x, n.u, ref);
            double m1 = ok ? merit(n.x, n.u) : std::numeric_limits<double>::infinity();
            if (none && !ok) throw mon::Skip();
            if (std::isnan(m1)) m1 = std::numeric_limits<double>::infinity();
            if (!none) margin = std::min(margin, std::abs(m1 - m0) / (1 + std::abs(m0)));
            if (none || m1 < m0)
            {
                t = n;
                alpha = a;
                break;
            }
        }
    }
};
}  // namespace nl
