// Random cost terms and activations with an independent model, shared by C07, C08, C22 and C23.
#pragma once
#include "sys.hpp"
#include <ct/optcon/optcon.h>

struct ActModel
{
    std::function<double(double)> w = [](double) { return 1.0; };  // 0 outside of the window
    std::function<bool(double)> edge = [](double) { return false; };
    std::string kind = "always", info;  // info: body of the time_activation node
    std::shared_ptr<ct::core::ActivationBase> obj;
};
inline ActModel randomAct(mon::Rng& r)
{
    using namespace ct::core;
    ActModel m;
    auto kv = [&](const char* k, double v) { m.info += std::string(k) + " " + mon::full(v) + "\n"; };
    switch (r.in(0, 6))
    {
        case 0: case 1: return m;
        case 2:
        {
            double a = r.uni(-0.5, 1), b = a + r.uni(0.2, 2);
            m.kind = "single"; kv("t_on", a); kv("t_off", b);
            m.obj.reset(new SingleActivation(a, b));
            m.w = [=](double t) { return t >= a && t < b ? 1.0 : 0.0; };
            m.edge = [=](double t) { return std::abs(t - a) < 1e-9 || std::abs(t - b) < 1e-9; };
            return m;
        }
        case 3:
        {
            double a = r.uni(-0.5, 1), b = a + r.uni(0.2, 2), s = r.uni(-2, 2), v = r.uni(-2, 2);
            m.kind = "linear"; kv("t_on", a); kv("t_off", b); kv("slope", s); kv("startVal", v);
            m.obj.reset(new LinearActivation(a, b, s, v));
            m.w = [=](double t) { return t >= a && t < b ? v + s * (t - a) : 0.0; };
            m.edge = [=](double t) { return std::abs(t - a) < 1e-9 || std::abs(t - b) < 1e-9; };
            return m;
        }
        case 4:
        {
            double P = r.uni(0.2, 1.5), fr = r.uni(0.1, 0.6), off = r.uni(0, (1 - fr) * P * 0.99), po = r.uni(-0.5, 0.5);
            m.kind = "periodic"; kv("active_percentage", fr); kv("period", P); kv("activation_offset", off); kv("period_offset", po); kv("t_end", 1000);
            m.obj.reset(new PeriodicActivation(fr, P, off, po));
            auto ph = [=](double t) { return (t - po) - P * std::floor((t - po) / P); };
            m.w = [=](double t) { return t >= po && ph(t) >= off && ph(t) < off + fr * P ? 1.0 : 0.0; };
            m.edge = [=](double t) { double x = ph(t); return std::abs(t - po) < 1e-7 || std::abs(x - off) < 1e-7 || std::abs(x - off - fr * P) < 1e-7 || x < 1e-7 || P - x < 1e-7; };
            return m;
        }
        case 5:
        {
            double mu = r.uni(-0.5, 2), sg = r.uni(0.3, 1.5);
            m.kind = "rbf"; kv("mu", mu); kv("sigma", sg);
            m.obj.reset(new RBFGaussActivation(mu, sg));
            m.w = [=](double t) { return std::exp(-(t - mu) * (t - mu) / (2 * sg * sg)) / (sg * std::sqrt(2 * M_PI)); };
            return m;
        }
        default:
        {
            double ub = r.uni(0.5, 2), lb = ub - r.uni(0.5, 2), al = r.uni(0.2, 1.5);
            m.kind = "barrier"; kv("upper_bound", ub); kv("lower_bound", lb); kv("alpha", al);
            m.obj.reset(new BarrierActivation(ub, lb, al));
            m.w = [=](double t) { return std::exp(al * (t - ub)) + std::exp(al * (lb - t)); };
            return m;
        }
    }
}

// a user-defined nonlinear, explicitly time-dependent term
template <int N, int M>
struct UserTerm : public ct::optcon::TermBase<N, M>
{
    typedef ct::optcon::TermBase<N, M> B;
    Eigen::Matrix<double, N, 1> p; Eigen::Matrix<double, M, 1> q; double w, s;
    UserTerm(mon::Rng& r) : B("user") { p = r.mat<N, 1>(); q = r.mat<M, 1>(); w = r.uni(-2, 2); s = r.uni(0.5, 2); }
    UserTerm* clone() const override { return new UserTerm(*this); }
    double z(const Eigen::Matrix<double, N, 1>& x, const Eigen::Matrix<double, M, 1>& u, double t) const { return p.dot(x) + q.dot(u) + w * t; }
    double evaluate(const Eigen::Matrix<double, N, 1>& x, const Eigen::Matrix<double, M, 1>& u, const double& t) override { return s * std::sin(z(x, u, t)); }
    typedef ct::core::StateVector<N> X; typedef ct::core::ControlVector<M> U;
    X stateDerivative(const X& x, const U& u, const double& t) override { return X(s * std::cos(z(x, u, t)) * p); }
    U controlDerivative(const X& x, const U& u, const double& t) override { return U(s * std::cos(z(x, u, t)) * q); }
    typename B::state_matrix_t stateSecondDerivative(const X& x, const U& u, const double& t) override { return -s * std::sin(z(x, u, t)) * p * p.transpose(); }
    typename B::control_matrix_t controlSecondDerivative(const X& x, const U& u, const double& t) override { return -s * std::sin(z(x, u, t)) * q * q.transpose(); }
    typename B::control_state_matrix_t stateControlDerivative(const X& x, const U& u, const double& t) override { return -s * std::sin(z(x, u, t)) * q * p.transpose(); }
};

enum TermKind { T_LIN, T_QUAD, T_MIX, T_MULT, T_ABS, T_TRACK, T_USER, T_BAR, T_NKIND };
static const char* const termKindName[] = {"linear", "quadratic", "mixed", "quadratic-multiplicative", "smooth-abs", "tracking", "user", "barrier"};

template <int N, int M>
struct TermModel
{
    typedef Eigen::Matrix<double, N, 1> X;
    typedef Eigen::Matrix<double, M, 1> U;
    int kind = 0;
    Eigen::Matrix<double, N, N> Q; Eigen::Matrix<double, M, M> R; Eigen::Matrix<double, M, N> P;
    X a, xr, lb, ub, al; U b, ur;
    double c = 0, alpha = 0.2;
    std::vector<double> tt; std::vector<X> xt; std::vector<U> ut; bool zoh = false, trackU = false, early = false;
    std::shared_ptr<UserTerm<N, M>> user;
    ActModel act;
    std::string name;
    bool fromFile = false;
    template <class V>
    V interp(const std::vector<V>& v, double t) const
    {
        if (t <= tt.front()) return v.front();
        if (t >= tt.back()) return v.back();
        size_t i = 0;
        while (tt[i + 1] <= t) ++i;
        if (zoh) return v[i];
        double s = (t - tt[i]) / (tt[i + 1] - tt[i]);
        return v[i] * (1 - s) + v[i + 1] * s;
    }
    double raw(const X& x, const U& u, double t) const
    {
        X dx = x - xr; U du = u - ur;
        switch (kind)
        {
            case T_LIN: return a.dot(x) + b.dot(u) + c;
            case T_QUAD: return dx.dot(Q * dx) + du.dot(R * du);
            case T_MIX: return du.dot(P * dx);
            case T_MULT: return dx.dot(Q * dx) * du.dot(R * du);
            case T_ABS:
            {
                double s = 0;
                for (int i = 0; i < N; ++i) s += a(i) * std::sqrt(dx(i) * dx(i) + alpha * alpha);
                for (int i = 0; i < M; ++i) s += b(i) * std::sqrt(du(i) * du(i) + alpha * alpha);
                return s;
            }
            case T_TRACK:
            {
                X e = x - interp(xt, t);
                U f = trackU ? U(u - interp(ut, t)) : u;
                return e.dot(Q * e) + f.dot(R * f);
            }
            case T_USER: return user->s * std::sin(user->z(x, u, t));
            default:
            {
                double s = 0;
                for (int i = 0; i < N; ++i) s += std::exp(al(i) * (x(i) - ub(i))) + std::exp(al(i) * (lb(i) - x(i)));
                return s;
            }
        }
    }
    bool hasStateRef() const { return kind == T_QUAD || kind == T_MIX || kind == T_MULT || kind == T_ABS; }
    bool hasControlRef() const { return hasStateRef(); }
    bool edge(double t) const
    {
        if (act.edge(t)) return true;
        if (kind == T_TRACK)
            for (double s : tt) if (std::abs(s - t) < 1e-7) return true;
        return false;
    }
    std::shared_ptr<ct::optcon::TermBase<N, M>> make() const
    {
        using namespace ct::optcon;
        using namespace ct::core;
        std::shared_ptr<TermBase<N, M>> p;
        StateVector<N> sa = a, sx = xr, sl = lb, su = ub, sal = al; ControlVector<M> cb = b, cu = ur;
        switch (kind)
        {
            case T_LIN: p.reset(new TermLinear<N, M>(sa, cb, c)); break;
            case T_QUAD: p.reset(new TermQuadratic<N, M>(Q, R, sx, cu)); break;
            case T_MIX: p.reset(new TermMixed<N, M>(P, sx, cu)); break;
            case T_MULT: p.reset(new TermQuadMult<N, M>(Q, R, sx, cu)); break;
            case T_ABS: p.reset(new TermSmoothAbs<N, M>(sa, sx, cb, cu, alpha)); break;
            case T_TRACK:
            {
                InterpolationType it = zoh ? ZOH : LIN;
                auto q = new TermQuadTracking<N, M>(Q, R, it, it, trackU);
                if (early) { auto w = q->clone(); delete q; q = w; }
                p.reset(q);
                StateTrajectory<N> xs(it); ControlTrajectory<M> us(it);
                for (size_t i = 0; i < tt.size(); ++i) { xs.push_back(StateVector<N>(xt[i]), tt[i], true); us.push_back(ControlVector<M>(ut[i]), tt[i], true); }
                q->setStateAndControlReference(xs, us);
                break;
            }
            case T_USER: p.reset(new UserTerm<N, M>(*user)); break;
            default: p.reset(new TermStateBarrier<N, M>(su, sl, sal));
        }
        if (early && kind != T_TRACK) p.reset(p->clone());
        if (act.obj) p->setTimeActivation(act.obj);
        p->setName(name);
        return p;
    }
    // node of a configuration file; type 0 = intermediate, 1 = final
    std::string node(int idx, int type, mon::Rng& r) const
    {
        using mon::full;
        std::string kn = termKindName[kind];
        if (r.coin(0.3)) for (auto& ch : kn) if (r.coin(0.3)) ch = char(toupper(ch));
        std::string s = "term" + std::to_string(idx) + "\n{\nkind \"" + kn + "\"\ntype " + std::to_string(type) + "\nname \"" + name + "\"\n";
        if (act.obj) s += "time_activation\n{\nkind " + act.kind + "\n" + act.info + "}\n";
        s += "weights\n{\n";
        auto mat = [&](const char* n, const Eigen::MatrixXd& m0) {
            Eigen::MatrixXd m = m0;
            s += std::string(n) + "\n{\n";
            if (r.coin(0.4)) { double sc = r.coin() ? 2.0 : 0.5; m /= sc; s += "scaling " + full(sc) + "\n"; }
            for (int i = 0; i < m.rows(); ++i)
                for (int j = 0; j < m.cols(); ++j)
                    if (m(i, j) != 0) s += "(" + std::to_string(i) + "," + std::to_string(j) + ") " + full(m(i, j)) + "\n";
            s += "}\n";
        };
        if (kind == T_LIN) { mat("a", a); mat("b", b); if (c != 0) s += "c " + full(c) + "\n"; }
        if (kind == T_QUAD || kind == T_MULT || kind == T_TRACK) { mat("Q", Q); mat("R", R); }
        if (kind == T_BAR) { mat("alpha", al.asDiagonal()); mat("upper_bound", ub.asDiagonal()); mat("lower_bound", lb.asDiagonal()); }
        if (kind == T_MIX) mat("P", P);
        if (kind == T_QUAD || kind == T_MULT || kind == T_MIX) { mat("x_des", xr); mat("u_des", ur); }
        if (kind == T_ABS) { mat("a", a); mat("b", b); mat("x_ref", xr); mat("u_ref", ur); s += "alpha " + full(alpha) + "\n"; }
        return s + "}\n}\n";
    }
};

template <int N, int M>
TermModel<N, M> randomCost(mon::Rng& r, bool deriv = true, bool loadable = false)
{
    TermModel<N, M> m;
    m.kind = loadable ? r.in(0, T_ABS) : r.in(0, deriv ? T_USER : T_BAR);
    bool sparse = r.coin(0.3);
    auto mk = [&](Eigen::MatrixXd v) { if (sparse) for (int i = 0; i < v.size(); ++i) if (r.coin(0.4)) v.data()[i] = 0; return v; };
    bool sym = r.coin();
    m.Q = mk(r.dmat(N, N, -2, 2)); m.R = mk(r.dmat(M, M, -2, 2)); m.P = mk(r.dmat(M, N, -2, 2));
    if (sym) { m.Q = r.spd(N); m.R = r.spd(M); }
    m.a = mk(r.dvec(N, -2, 2)); m.b = mk(r.dvec(M, -2, 2)); m.xr = mk(r.dvec(N, -2, 2)); m.ur = mk(r.dvec(M, -2, 2));
    m.ub = r.dvec(N, 0, 1); m.lb = r.dvec(N, -1, 0); m.al = r.dvec(N, 0.2, 1.5);
    m.c = r.coin() ? r.uni(-2, 2) : 0; m.alpha = r.uni(0.2, 1.5);
    int n = r.in(1, 5);
    double t = r.uni(-0.5, 0.5);
    for (int i = 0; i < n; ++i) { m.tt.push_back(t); t += r.uni(0.1, 1); m.xt.push_back(r.mat<N, 1>()); m.ut.push_back(r.mat<M, 1>()); }
    m.zoh = r.coin(); m.trackU = r.coin(); m.early = r.coin(0.3);
    m.user = std::make_shared<UserTerm<N, M>>(r);
    m.act = randomAct(r);
    m.name = std::string(termKindName[m.kind]) + "-" + std::to_string(r.in(0, 999));
    return m;
}

template <int N, int M>
struct CostModel
{
    typedef TermModel<N, M> T;
    std::vector<T> in, fi;
    double inter(const typename T::X& x, const typename T::U& u, double t) const
    {
        double s = 0;
        for (auto& m : in) { double w = m.act.w(t); if (w != 0) s += w * m.raw(x, u, t); }
        return s;
    }
    double term(const typename T::X& x, const typename T::U& u, double t) const
    {
        double s = 0;
        for (auto& m : fi) s += m.raw(x, u, t);
        return s;
    }
    bool edge(double t) const
    {
        for (auto& m : in) if (m.edge(t)) return true;
        for (auto& m : fi) if (m.edge(t)) return true;
        return false;
    }
    std::string names() const
    {
        std::string s = "I:";
        for (auto& m : in) s += " " + std::string(termKindName[m.kind]) + "/" + m.act.kind;
        s += " F:";
        for (auto& m : fi) s += " " + std::string(termKindName[m.kind]);
        return s;
    }
    double time(mon::Rng& r, double shift = 0) const
    {
        for (int k = 0; k < 50; ++k) { double t = r.uni(-1, 3.5); if (!edge(t + shift)) return t; }
        throw mon::Skip();
    }
};
template <int N, int M>
std::shared_ptr<ct::optcon::CostFunctionAnalytical<N, M>> randomCostFunction(mon::Rng& r, CostModel<N, M>& m, int maxI, int maxF, bool deriv = true)
{
    auto k = std::make_shared<ct::optcon::CostFunctionAnalytical<N, M>>();
    int ni = r.in(0, maxI), nf = r.in(0, maxF);
    for (int i = 0; i < ni; ++i) { m.in.push_back(randomCost<N, M>(r, deriv)); k->addIntermediateTerm(m.in.back().make()); }
    for (int i = 0; i < nf; ++i) { m.fi.push_back(randomCost<N, M>(r, deriv)); k->addFinalTerm(m.fi.back().make()); }
    return k;
}
