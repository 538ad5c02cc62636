#pragma once
#include "sys.hpp"
// pdot = Vp v + E p + Bp u ; vdot = -K p + k3*sin(Kp p) - C v + Bv u + s*sin(w... ) : non-separable in general, separable if E=C=0,Bp=0
template <int P, int M>
struct SymDyn
{
    Eigen::Matrix<double, P, P> Vp, E, K, C, S, Q;
    Eigen::Matrix<double, P, M> Bp, Bv;
    typedef Eigen::Matrix<double, P, 1> V;
    typedef Eigen::Matrix<double, M, 1> U;
    static SymDyn random(Rng& r, bool separable)
    {
        SymDyn d;
        d.Vp = r.spd(P, 0.5, 1.5);
        d.K = r.spd(P, 0.3, 2.0);
        d.S = 0.3 * r.spd(P, 0.1, 1.0);
        d.Q = Eigen::Matrix<double, P, P>::Identity();
        d.E.setZero(); d.C.setZero(); d.Bp.setZero();
        d.Bv = r.mat<P, M>();
        if (!separable)
        {
            d.E = 0.3 * r.mat<P, P>();
            d.C = 0.5 * r.mat<P, P>();
            d.Bp = r.mat<P, M>();
            d.Q = r.mat<P, P>();
        }
        return d;
    }
    V pdot(const V& p, const V& v, const U& u) const { return Vp * v + E * p + Bp * u; }
    V vdot(const V& p, const V& v, const U& u) const { V z = (Q * p).array().sin(); return -K * p - S * z - C * v + Bv * u; }
    Eigen::Matrix<double, 2 * P, 2 * P> fx(const V& p) const
    {
        Eigen::Matrix<double, 2 * P, 2 * P> a;
        V z = (Q * p).array().cos();
        a << E, Vp, -K - S * z.asDiagonal() * Q, -C;
        return a;
    }
    Eigen::Matrix<double, 2 * P, M> fu() const
    {
        Eigen::Matrix<double, 2 * P, M> b;
        b << Bp, Bv;
        return b;
    }
};
template <int P, int M>
struct SymSys : public ct::core::SymplecticSystem<P, P, M>
{
    typedef ct::core::SymplecticSystem<P, P, M> Base;
    SymDyn<P, M> d;
    SymSys(const SymDyn<P, M>& dd, std::shared_ptr<ct::core::Controller<2 * P, M>> c = nullptr) : Base(c), d(dd) {}
    SymSys* clone() const override { return new SymSys(*this); }
    void computePdot(const ct::core::StateVector<2 * P>& x, const ct::core::StateVector<P>& v, const ct::core::ControlVector<M>& u, ct::core::StateVector<P>& o) override
    {
        o = d.pdot(x.template head<P>(), v, u);
    }
    void computeVdot(const ct::core::StateVector<2 * P>& x, const ct::core::StateVector<P>& p, const ct::core::ControlVector<M>& u, ct::core::StateVector<P>& o) override
    {
        o = d.vdot(p, x.template tail<P>(), u);
    }
};
template <int P, int M>
struct SymLin : public ct::core::LinearSystem<2 * P, M>
{
    typedef ct::core::LinearSystem<2 * P, M> Base;
    SymDyn<P, M> d;
    typename Base::state_matrix_t a;
    typename Base::state_control_matrix_t b;
    SymLin(const SymDyn<P, M>& dd) : d(dd) {}
    SymLin* clone() const override { return new SymLin(*this); }
    const typename Base::state_matrix_t& getDerivativeState(const ct::core::StateVector<2 * P>& x, const ct::core::ControlVector<M>& u, const double t) override
    {
        a = d.fx(x.template head<P>());
        return a;
    }
    const typename Base::state_control_matrix_t& getDerivativeControl(const ct::core::StateVector<2 * P>& x, const ct::core::ControlVector<M>& u, const double t) override
    {
        b = d.fu();
        return b;
    }
};
// time-varying linear feedback u = K x + a sin(w t + p)
template <int N, int M>
struct TvCtrl : public ct::core::Controller<N, M>
{
    Eigen::Matrix<double, M, N> K;
    Eigen::Matrix<double, M, 1> a, ph;
    double w;
    TvCtrl(Rng& r, double gain = 0.5) : K(gain * r.mat<M, N>()), a(r.mat<M, 1>()), ph(r.mat<M, 1>(-3, 3)), w(r.uni(0.5, 3)) {}
    TvCtrl* clone() const override { return new TvCtrl(*this); }
    Eigen::Matrix<double, M, 1> u(const Eigen::Matrix<double, N, 1>& x, double t) const
    {
        Eigen::Matrix<double, M, 1> z;
        for (int i = 0; i < M; ++i) z(i) = a(i) * std::sin(w * t + ph(i));
        return K * x + z;
    }
    void computeControl(const ct::core::StateVector<N>& x, const double& t, ct::core::ControlVector<M>& o) override { o = u(x, t); }
};
