// Random smooth time-varying nonlinear systems with known Jacobians, shared by the harnesses.
#pragma once
#include "mon.hpp"
#include <ct/core/core.h>
using mon::Rng;

// f(x,u,t) = A x + B u + G sin(H x + L u + w t) + c
template <int N, int M>
struct Dyn
{
    Eigen::Matrix<double, N, N> A, G, H;
    Eigen::Matrix<double, N, M> B, L;
    Eigen::Matrix<double, N, 1> w, c;
    typedef Eigen::Matrix<double, N, 1> X;
    typedef Eigen::Matrix<double, M, 1> U;
    Dyn() { A.setZero(); G.setZero(); H.setZero(); B.setZero(); L.setZero(); w.setZero(); c.setZero(); }
    static Dyn random(Rng& r, double nl = 0.7, bool tv = true)
    {
        Dyn d;
        d.A = r.mat<N, N>(-1, 1);
        d.B = r.mat<N, M>(-1, 1);
        d.G = nl * r.mat<N, N>(-1, 1);
        d.H = r.mat<N, N>(-1, 1);
        d.L = r.mat<N, M>(-1, 1);
        if (tv) d.w = r.mat<N, 1>(-2, 2);
        d.c = r.mat<N, 1>(-0.5, 0.5);
        return d;
    }
    template <class S>
    Eigen::Matrix<S, N, 1> f(const Eigen::Matrix<S, N, 1>& x, const Eigen::Matrix<S, M, 1>& u, const S& t) const
    {
        using std::sin;
        Eigen::Matrix<S, N, 1> z, out;
        for (int i = 0; i < N; ++i)
        {
            S a = S(w(i)) * t;
            for (int j = 0; j < N; ++j) a += S(H(i, j)) * x(j);
            for (int j = 0; j < M; ++j) a += S(L(i, j)) * u(j);
            z(i) = sin(a);
        }
        for (int i = 0; i < N; ++i)
        {
            S a = S(c(i));
            for (int j = 0; j < N; ++j) a += S(A(i, j)) * x(j) + S(G(i, j)) * z(j);
            for (int j = 0; j < M; ++j) a += S(B(i, j)) * u(j);
            out(i) = a;
        }
        return out;
    }
    X fd(const X& x, const U& u, double t) const { return f<double>(x, u, t); }
    Eigen::Matrix<double, N, N> fx(const X& x, const U& u, double t) const
    {
        X z = (H * x + L * u + w * t).array().cos();
        return A + G * z.asDiagonal() * H;
    }
    Eigen::Matrix<double, N, M> fu(const X& x, const U& u, double t) const
    {
        X z = (H * x + L * u + w * t).array().cos();
        return B + G * z.asDiagonal() * L;
    }
};

template <int N, int M, class S = double>
struct DynSys : public ct::core::ControlledSystem<N, M, S>
{
    Dyn<N, M> d;
    long* evals = nullptr;
    DynSys(const Dyn<N, M>& dd, std::shared_ptr<ct::core::Controller<N, M, S>> c = nullptr)
        : ct::core::ControlledSystem<N, M, S>(c), d(dd)
    {
    }
    DynSys* clone() const override { return new DynSys(*this); }
    void computeControlledDynamics(const ct::core::StateVector<N, S>& x, const S& t, const ct::core::ControlVector<M, S>& u,
        ct::core::StateVector<N, S>& dx) override
    {
        if (evals) ++*evals;
        dx = d.template f<S>(x, u, t);
    }
};

// linear system object returning the analytic Jacobians of Dyn
template <int N, int M>
struct DynLin : public ct::core::LinearSystem<N, M>
{
    typedef ct::core::LinearSystem<N, M> Base;
    Dyn<N, M> d;
    typename Base::state_matrix_t a;
    typename Base::state_control_matrix_t b;
    DynLin(const Dyn<N, M>& dd) : d(dd) {}
    DynLin* clone() const override { return new DynLin(*this); }
    const typename Base::state_matrix_t& getDerivativeState(const ct::core::StateVector<N>& x, const ct::core::ControlVector<M>& u, const double t) override
    {
        a = d.fx(x, u, t);
        return a;
    }
    const typename Base::state_control_matrix_t& getDerivativeControl(const ct::core::StateVector<N>& x, const ct::core::ControlVector<M>& u, const double t) override
    {
        b = d.fu(x, u, t);
        return b;
    }
};

// one step of explicit schemes
template <class X, class F>
X eulerStep(const F& f, const X& x, double t, double h) { return x + h * f(x, t); }
template <class X, class F>
X rk4Step(const F& f, const X& x, double t, double h)
{
    X k1 = f(x, t), k2 = f(X(x + 0.5 * h * k1), t + 0.5 * h), k3 = f(X(x + 0.5 * h * k2), t + 0.5 * h), k4 = f(X(x + h * k3), t + h);
    return x + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4);
}
// accurate reference solution
template <class X, class F>
X fine(const F& f, X x, double t0, double t1, double hmax = 2e-3)
{
    int n = std::max(1, int(std::ceil(std::abs(t1 - t0) / hmax)));
    double h = (t1 - t0) / n;
    for (int i = 0; i < n; ++i) x = rk4Step(f, x, t0 + i * h, h);
    return x;
}
