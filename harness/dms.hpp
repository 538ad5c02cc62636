// Random multiple-shooting problems and an independent transcription, shared by C13 and C14.
#pragma once
#include "cost.hpp"
#include "cons.hpp"

namespace dms {
using ct::optcon::DmsSettings;

template <int N, int M>
struct Ref
{
    typedef Eigen::Matrix<double, N, 1> X;
    typedef Eigen::Matrix<double, M, 1> U;
    DmsSettings s;
    Dyn<N, M> d;
    CostModel<N, M> cost;
    std::vector<std::pair<ConStack<N, M>, ConStack<N, M>>> con;  // (intermediate, terminal) in the order input box, state box, general
    X x0;
    double T;
    int sub;  // integration steps per shot

    int K() const { return int(s.N_); }
    int nw() const { return (K() + 1) * (N + M); }
    double t(int i) const { return i * (T / K()); }
    X x(const Eigen::VectorXd& w, int i) const { return w.segment<N>(i * (N + M)); }
    U u(const Eigen::VectorXd& w, int i) const { return w.segment<M>(i * (N + M) + N); }
    U input(const Eigen::VectorXd& w, int i, double tt) const
    {
        if (s.splineType_ == DmsSettings::ZERO_ORDER_HOLD) return u(w, i);
        double a = (tt - t(i)) / (t(i + 1) - t(i));
        return (1 - a) * u(w, i) + a * u(w, i + 1);
    }
    // state and cost at the end of shot i
    Eigen::Matrix<double, N + 1, 1> shot(const Eigen::VectorXd& w, int i) const
    {
        typedef Eigen::Matrix<double, N + 1, 1> Z;
        Z z;
        z << x(w, i), 0.0;
        auto f = [&](const Z& y, double tt) {
            Z o;
            X xx = y.template head<N>();
            U uu = input(w, i, tt);
            o << d.fd(xx, uu, tt), cost.inter(xx, uu, tt);
            return o;
        };
        double tt = t(i);
        for (int k = 0; k < sub; ++k)
        {
            z = s.integrationType_ == DmsSettings::EULER ? eulerStep(f, z, tt, s.dt_sim_) : rk4Step(f, z, tt, s.dt_sim_);
            tt += s.dt_sim_;
        }
        return z;
    }
    double value(const Eigen::VectorXd& w) const
    {
        double v = cost.term(x(w, K()), U::Zero(), T);
        if (s.costEvaluationType_ == DmsSettings::FULL)
            for (int i = 0; i < K(); ++i) v += shot(w, i)(N);
        else
            for (int i = 0; i <= K(); ++i)
            {
                double h = T / K();
                double ph = s.splineType_ == DmsSettings::ZERO_ORDER_HOLD ? (i < K() ? h : 0.0) : (i == 0 || i == K() ? h / 2 : h);
                if (ph != 0) v += ph * cost.inter(x(w, i), u(w, i), t(i));
            }
        return v;
    }
    int nc() const
    {
        int n = (K() + 1) * N;
        for (auto& c : con) n += (K() + 1) * c.first.rows() + c.second.rows();
        return n;
    }
    Eigen::VectorXd cons(const Eigen::VectorXd& w) const
    {
        Eigen::VectorXd g(nc());
        g.head<N>() = x(w, 0) - x0;
        int k = N;
        for (int i = 0; i < K(); ++i, k += N) g.segment<N>(k) = x(w, i + 1) - shot(w, i).template head<N>();
        for (int i = 0; i <= K(); ++i)
            for (auto& c : con) { int n = c.first.rows(); if (n) g.segment(k, n) = c.first.g(x(w, i), u(w, i), t(i)); k += n; }
        for (auto& c : con) { int n = c.second.rows(); if (n) g.segment(k, n) = c.second.g(x(w, K()), u(w, K()), T); k += n; }
        return g;
    }
    void bounds(Eigen::VectorXd& lo, Eigen::VectorXd& up) const
    {
        lo = up = Eigen::VectorXd::Zero(nc());
        int k = (K() + 1) * N;
        for (int i = 0; i <= K(); ++i)
            for (auto& c : con) { int n = c.first.rows(); if (n) { lo.segment(k, n) = c.first.lb(); up.segment(k, n) = c.first.ub(); } k += n; }
        for (auto& c : con) { int n = c.second.rows(); if (n) { lo.segment(k, n) = c.second.lb(); up.segment(k, n) = c.second.ub(); } k += n; }
    }
    Eigen::MatrixXd jac(const Eigen::VectorXd& w) const
    {
        Eigen::MatrixXd J(nc(), nw());
        const double h = 1e-6;
        for (int j = 0; j < nw(); ++j)
        {
            Eigen::VectorXd a = w, b = w;
            a(j) += h; b(j) -= h;
            J.col(j) = (cons(a) - cons(b)) / (2 * h);
        }
        return J;
    }
    Eigen::VectorXd grad(const Eigen::VectorXd& w) const
    {
        Eigen::VectorXd g(nw());
        const double h = 1e-6;
        for (int j = 0; j < nw(); ++j)
        {
            Eigen::VectorXd a = w, b = w;
            a(j) += h; b(j) -= h;
            g(j) = (value(a) - value(b)) / (2 * h);
        }
        return g;
    }
};

// container objects belonging to ref.con
template <int N, int M>
struct Cons
{
    typedef std::shared_ptr<ct::optcon::ConstraintContainerAnalytical<N, M>> P;
    std::vector<P> in, st, ge;
};
template <int N, int M>
typename Cons<N, M>::P box(Rng& r, std::pair<ConStack<N, M>, ConStack<N, M>>& m, bool state, bool feasible, double widest = 4)
{
    auto k = std::make_shared<ct::optcon::ConstraintContainerAnalytical<N, M>>();
    auto add = [&](bool term) {
        ConModel<N, M> c;
        std::shared_ptr<ct::optcon::ConstraintBase<N, M>> p;
        double L = feasible ? r.uni(1.1, widest) : r.uni(0.2, 2);
        const int n = state ? N : M;
        c.lb = Eigen::VectorXd::Constant(n, -L) + r.dvec(n, -0.1, 0.1);
        c.ub = Eigen::VectorXd::Constant(n, L) + r.dvec(n, -0.1, 0.1);
        if (state)
        {
            ct::core::StateVector<N> l = c.lb, h = c.ub;
            p.reset(new ct::optcon::StateConstraint<N, M>(l, h));
            c.g = [](const Eigen::Matrix<double, N, 1>& x, const Eigen::Matrix<double, M, 1>&, double) { return Eigen::VectorXd(x); };
        }
        else
        {
            ct::core::ControlVector<M> l = c.lb, h = c.ub;
            p.reset(new ct::optcon::ControlInputConstraint<N, M>(l, h));
            c.g = [](const Eigen::Matrix<double, N, 1>&, const Eigen::Matrix<double, M, 1>& u, double) { return Eigen::VectorXd(u); };
        }
        if (term) { k->addTerminalConstraint(p, false); m.second.t.push_back(c); }
        else { k->addIntermediateConstraint(p, false); m.first.t.push_back(c); }
    };
    add(false);
    if (!feasible && r.coin(0.3)) add(true);
    k->initialize();
    return k;
}
inline DmsSettings settings(Rng& r, double& T, int& sub, int maxShots)
{
    DmsSettings s;
    s.N_ = r.in(1, maxShots);
    sub = r.in(1, 4);
    s.dt_sim_ = r.uni(0.02, 0.1);
    T = s.T_ = s.N_ * sub * s.dt_sim_;
    s.nThreads_ = r.in(1, 4);
    s.splineType_ = r.coin() ? DmsSettings::ZERO_ORDER_HOLD : DmsSettings::PIECEWISE_LINEAR;
    s.costEvaluationType_ = r.coin() ? DmsSettings::SIMPLE : DmsSettings::FULL;
    s.integrationType_ = r.coin() ? DmsSettings::EULER : DmsSettings::RK4;
    s.solverSettings_.solverType_ = ct::optcon::NlpSolverType::IPOPT;
    s.solverSettings_.ipoptSettings_.printLevel_ = 0;
    return s;
}
inline std::string name(const DmsSettings& s, int sub)
{
    return "N=" + std::to_string(s.N_) + " sub=" + std::to_string(sub) + " threads=" + std::to_string(s.nThreads_) + (s.splineType_ == DmsSettings::ZERO_ORDER_HOLD ? " zoh" : " pwl") +
           (s.costEvaluationType_ == DmsSettings::SIMPLE ? " simple" : " full") + (s.integrationType_ == DmsSettings::EULER ? " euler" : " rk4");
}
}  // namespace dms
