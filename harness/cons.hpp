// Random constraint terms with an independent model, shared by C09, C10, C13 and C22.
#pragma once
#include "sys.hpp"
#include <ct/optcon/optcon.h>

// g = C x + D u + E sin(F x + G u + w t), k rows
template <int N, int M>
struct NlCon : public ct::optcon::ConstraintBase<N, M>
{
    typedef ct::optcon::ConstraintBase<N, M> Base;
    typedef ct::core::StateVector<N> X;
    typedef ct::core::ControlVector<M> U;
    Eigen::MatrixXd Cm, D, E, F, G;
    Eigen::VectorXd w;
    NlCon(Rng& r, int k, bool tv = true) : Base("nl")
    {
        Cm = r.dmat(k, N); D = r.dmat(k, M); E = r.dmat(k, k); F = r.dmat(k, N); G = r.dmat(k, M);
        w = tv ? r.dvec(k, -2, 2) : Eigen::VectorXd::Zero(k);
        this->lb_ = r.dvec(k, -2, 0);
        this->ub_ = r.dvec(k, 0, 2);
        for (int i = 0; i < k; ++i)
            if (r.coin(0.2)) this->lb_(i) = this->ub_(i);
    }
    NlCon* clone() const override { return new NlCon(*this); }
    Eigen::VectorXd evaluate(const X& x, const U& u, const double t) override { return Cm * x + D * u + E * (F * x + G * u + w * t).array().sin().matrix(); }
    size_t getConstraintSize() const override { return Cm.rows(); }
    Eigen::MatrixXd jacobianState(const X& x, const U& u, const double t) override
    {
        Eigen::VectorXd z = (F * x + G * u + w * t).array().cos();
        return Cm + E * z.asDiagonal() * F;
    }
    Eigen::MatrixXd jacobianInput(const X& x, const U& u, const double t) override
    {
        Eigen::VectorXd z = (F * x + G * u + w * t).array().cos();
        return D + E * z.asDiagonal() * G;
    }
};

// independent model of one term
template <int N, int M>
struct ConModel
{
    typedef Eigen::Matrix<double, N, 1> X;
    typedef Eigen::Matrix<double, M, 1> U;
    std::function<Eigen::VectorXd(const X&, const U&, double)> g;
    std::function<Eigen::MatrixXd(const X&, const U&, double)> gx, gu;
    Eigen::VectorXd lb, ub;
    std::string kind;
};
template <int N, int M>
std::pair<std::shared_ptr<ct::optcon::ConstraintBase<N, M>>, ConModel<N, M>> randomTerm(Rng& r, bool tv = true, int kindOnly = -1)
{
    typedef ConModel<N, M> Md;
    typedef typename Md::X X;
    typedef typename Md::U U;
    Md m;
    std::shared_ptr<ct::optcon::ConstraintBase<N, M>> p;
    int kind = kindOnly >= 0 ? kindOnly : r.in(0, 6);
    if (kind <= 1)
    {
        int k = r.in(1, 3);
        auto q = std::make_shared<NlCon<N, M>>(r, k, tv);
        auto cp = std::make_shared<NlCon<N, M>>(*q);
        p = q;
        m.lb = q->getLowerBound(); m.ub = q->getUpperBound();
        m.g = [cp](const X& x, const U& u, double t) { return Eigen::VectorXd(cp->Cm * x + cp->D * u + cp->E * (cp->F * x + cp->G * u + cp->w * t).array().sin().matrix()); };
        m.gx = [cp](const X& x, const U& u, double t) { return cp->jacobianState(x, u, t); };
        m.gu = [cp](const X& x, const U& u, double t) { return cp->jacobianInput(x, u, t); };
        m.kind = "nl" + std::to_string(k);
        return {p, m};
    }
    if (kind <= 5 && kind != 4)
    {
        bool state = kind == 2 || kind == 5 ? r.coin() : kind == 3;
        int n = state ? N : M;
        bool sparse = r.coin();
        Eigen::VectorXi sp = Eigen::VectorXi::Ones(n);
        if (sparse)
        {
            for (int i = 0; i < n; ++i) sp(i) = r.coin();
            if (sp.sum() == 0) sp(r.in(0, n - 1)) = 1;
        }
        int k = sp.sum();
        Eigen::VectorXd lb = r.dvec(k, -2, 0.5), ub = lb;
        for (int i = 0; i < k; ++i) ub(i) += r.coin(0.2) ? 0.0 : r.uni(0, 2);
        Eigen::MatrixXd J = Eigen::MatrixXd::Zero(k, n);
        for (int i = 0, q = 0; i < n; ++i)
            if (sp(i)) J(q++, i) = 1;
        if (state)
        {
            if (sparse) p.reset(new ct::optcon::StateConstraint<N, M>(lb, ub, sp));
            else { ct::core::StateVector<N> l = lb, h = ub; p.reset(new ct::optcon::StateConstraint<N, M>(l, h)); }
        }
        else
        {
            if (sparse) p.reset(new ct::optcon::ControlInputConstraint<N, M>(lb, ub, sp));
            else { ct::core::ControlVector<M> l = lb, h = ub; p.reset(new ct::optcon::ControlInputConstraint<N, M>(l, h)); }
        }
        m.lb = lb; m.ub = ub;
        m.g = [J, state](const X& x, const U& u, double) { return state ? Eigen::VectorXd(J * x) : Eigen::VectorXd(J * u); };
        m.gx = [J, state, k](const X&, const U&, double) { return state ? J : Eigen::MatrixXd(Eigen::MatrixXd::Zero(k, N)); };
        m.gu = [J, state, k](const X&, const U&, double) { return state ? Eigen::MatrixXd(Eigen::MatrixXd::Zero(k, M)) : J; };
        m.kind = std::string(state ? "state" : "input") + (sparse ? "-sparse" : "") + std::to_string(k);
        return {p, m};
    }
    if (kind == 4)
    {
        ct::core::StateVector<N> xf = r.mat<N, 1>(-2, 2);
        p.reset(new ct::optcon::TerminalConstraint<N, M>(xf));
        m.lb = m.ub = Eigen::VectorXd::Zero(N);
        m.g = [xf](const X& x, const U&, double) { return Eigen::VectorXd(x - xf); };
        m.gx = [](const X&, const U&, double) { return Eigen::MatrixXd(Eigen::MatrixXd::Identity(N, N)); };
        m.gu = [](const X&, const U&, double) { return Eigen::MatrixXd(Eigen::MatrixXd::Zero(N, M)); };
        m.kind = "terminal";
        return {p, m};
    }
    Eigen::Vector3d x0 = r.mat<3, 1>(-2, 2);
    Eigen::Matrix3d A = r.mat<3, 3>(-1, 1) + 2 * Eigen::Matrix3d::Identity(), S = Eigen::Quaterniond(Eigen::Vector4d(r.mat<4, 1>())).normalized().toRotationMatrix();
    Eigen::Matrix<double, 3, N> P = r.mat<3, N>();
    Eigen::Matrix<double, 3, N> H = r.mat<3, N>();
    // position = P x + sin(H x) row-wise
    auto pos = [P, H](const ct::core::StateVector<N>& x, Eigen::Vector3d& o) { o = P * x + (H * x).array().sin().matrix(); };
    auto jac = [P, H](const ct::core::StateVector<N>& x, Eigen::Matrix<double, 3, N>& o) { Eigen::Vector3d z = (H * x).array().cos(); o = P + z.asDiagonal() * H; };
    p.reset(new ct::optcon::ObstacleConstraint<N, M>(std::make_shared<ct::core::Ellipsoid>(x0, A, S), pos, jac));
    m.lb = Eigen::VectorXd::Zero(1);
    m.ub = Eigen::VectorXd::Constant(1, std::numeric_limits<double>::max());
    m.g = [=](const X& x, const U&, double) { Eigen::Vector3d q; pos(x, q); return Eigen::VectorXd(Eigen::VectorXd::Constant(1, (A * S.transpose() * (q - x0)).squaredNorm() - 1.0)); };
    m.gx = [=](const X& x, const U&, double) {
        Eigen::Vector3d q; Eigen::Matrix<double, 3, N> dq; pos(x, q); jac(x, dq);
        Eigen::Matrix3d T = A * S.transpose();
        return Eigen::MatrixXd(2 * (T * (q - x0)).transpose() * T * dq);
    };
    m.gu = [](const X&, const U&, double) { return Eigen::MatrixXd(Eigen::MatrixXd::Zero(1, M)); };
    m.kind = "obstacle";
    return {p, m};
}

template <int N, int M>
struct ConStack
{
    std::vector<ConModel<N, M>> t;
    typedef Eigen::Matrix<double, N, 1> X;
    typedef Eigen::Matrix<double, M, 1> U;
    int rows() const { int n = 0; for (auto& m : t) n += m.lb.size(); return n; }
    template <class F>
    Eigen::MatrixXd stack(int cols, const F& f) const
    {
        Eigen::MatrixXd r(rows(), cols);
        int k = 0;
        for (auto& m : t) { Eigen::MatrixXd b = f(m); r.middleRows(k, b.rows()) = b; k += b.rows(); }
        return r;
    }
    Eigen::MatrixXd g(const X& x, const U& u, double tt) const { return stack(1, [&](const ConModel<N, M>& m) { return Eigen::MatrixXd(m.g(x, u, tt)); }); }
    Eigen::MatrixXd gx(const X& x, const U& u, double tt) const { return stack(N, [&](const ConModel<N, M>& m) { return m.gx(x, u, tt); }); }
    Eigen::MatrixXd gu(const X& x, const U& u, double tt) const { return stack(M, [&](const ConModel<N, M>& m) { return m.gu(x, u, tt); }); }
    Eigen::MatrixXd lb() const { return stack(1, [&](const ConModel<N, M>& m) { return Eigen::MatrixXd(m.lb); }); }
    Eigen::MatrixXd ub() const { return stack(1, [&](const ConModel<N, M>& m) { return Eigen::MatrixXd(m.ub); }); }
    std::string names() const { std::string s; for (auto& m : t) s += m.kind + " "; return s; }
};
inline Eigen::MatrixXd fromSparse(mon::Case& c, const std::string& tag, const Eigen::VectorXd& v, const Eigen::VectorXi& r, const Eigen::VectorXi& k, size_t nnz, int rows, int cols)
{
    Eigen::MatrixXd m = Eigen::MatrixXd::Zero(rows, cols);
    if (!c.check(tag + "-nnz", (size_t)v.size() == nnz && (size_t)r.size() == nnz && (size_t)k.size() == nnz, mon::str(v.size()) + " values, " + mon::str(r.size()) + " rows, " + mon::str(k.size()) + " cols, announced " + mon::str(nnz))) return m;
    for (int i = 0; i < v.size(); ++i)
    {
        if (!c.check(tag + "-index", r(i) >= 0 && r(i) < rows && k(i) >= 0 && k(i) < cols, mon::str(r(i)) + "," + mon::str(k(i)))) return m;
        m(r(i), k(i)) += v(i);
    }
    return m;
}
// all observations of a container against the two stacks at (x,u,t)
template <int N, int M>
void checkContainer(mon::Case& c, const std::string& p, ct::optcon::LinearConstraintContainer<N, M>& k, const ConStack<N, M>& in, const ConStack<N, M>& te,
    const Eigen::Matrix<double, N, 1>& x, const Eigen::Matrix<double, M, 1>& u, double t)
{
    const double tol = 1e-11;
    size_t ni = in.rows(), nt = te.rows();
    c.check(p + "count", k.getIntermediateConstraintsCount() == ni && k.getTerminalConstraintsCount() == nt && k.getConstraintsCount() == ni + nt);
    c.check(p + "jacnnz", k.getJacNonZeroCount() == k.getJacobianStateNonZeroCountIntermediate() + k.getJacobianStateNonZeroCountTerminal() + k.getJacobianInputNonZeroCountIntermediate() + k.getJacobianInputNonZeroCountTerminal());
    auto viol = [](const Eigen::VectorXd& g, const Eigen::VectorXd& b, int s) { return Eigen::VectorXd(s > 0 ? Eigen::VectorXd((g - b).cwiseMax(0.0)) : Eigen::VectorXd((g - b).cwiseMin(0.0))); };
    Eigen::VectorXi r, q;
    if (ni)
    {
        Eigen::VectorXd g = in.g(x, u, t), lb = in.lb(), ub = in.ub();
        c.nearm(p + "g", k.evaluateIntermediate(), g, tol);
        c.nearm(p + "lb", k.getLowerBoundsIntermediate(), lb, 0);
        c.nearm(p + "ub", k.getUpperBoundsIntermediate(), ub, 0);
        c.nearm(p + "gx", k.jacobianStateIntermediate(), in.gx(x, u, t), tol);
        c.nearm(p + "gu", k.jacobianInputIntermediate(), in.gu(x, u, t), tol);
        k.sparsityPatternStateIntermediate(r, q);
        c.nearm(p + "gx-sparse", fromSparse(c, p + "gx", k.jacobianStateSparseIntermediate(), r, q, k.getJacobianStateNonZeroCountIntermediate(), ni, N), in.gx(x, u, t), tol);
        k.sparsityPatternInputIntermediate(r, q);
        c.nearm(p + "gu-sparse", fromSparse(c, p + "gu", k.jacobianInputSparseIntermediate(), r, q, k.getJacobianInputNonZeroCountIntermediate(), ni, M), in.gu(x, u, t), tol);
        c.nearm(p + "viol-low", k.getLowerBoundsViolationIntermediate(), viol(g, lb, -1), tol);
        c.nearm(p + "viol-up", k.getUpperBoundsViolationIntermediate(), viol(g, ub, 1), tol);
        c.nearm(p + "viol-total", k.getTotalBoundsViolationIntermediate(), viol(g, lb, -1) + viol(g, ub, 1), tol);
    }
    if (nt)
    {
        Eigen::VectorXd g = te.g(x, u, t), lb = te.lb(), ub = te.ub();
        c.nearm(p + "T-g", k.evaluateTerminal(), g, tol);
        c.nearm(p + "T-lb", k.getLowerBoundsTerminal(), lb, 0);
        c.nearm(p + "T-ub", k.getUpperBoundsTerminal(), ub, 0);
        c.nearm(p + "T-gx", k.jacobianStateTerminal(), te.gx(x, u, t), tol);
        c.nearm(p + "T-gu", k.jacobianInputTerminal(), te.gu(x, u, t), tol);
        k.sparsityPatternStateTerminal(r, q);
        c.nearm(p + "T-gx-sparse", fromSparse(c, p + "T-gx", k.jacobianStateSparseTerminal(), r, q, k.getJacobianStateNonZeroCountTerminal(), nt, N), te.gx(x, u, t), tol);
        k.sparsityPatternInputTerminal(r, q);
        c.nearm(p + "T-gu-sparse", fromSparse(c, p + "T-gu", k.jacobianInputSparseTerminal(), r, q, k.getJacobianInputNonZeroCountTerminal(), nt, M), te.gu(x, u, t), tol);
        c.nearm(p + "T-viol-low", k.getLowerBoundsViolationTerminal(), viol(g, lb, -1), tol);
        c.nearm(p + "T-viol-up", k.getUpperBoundsViolationTerminal(), viol(g, ub, 1), tol);
        c.nearm(p + "T-viol-total", k.getTotalBoundsViolationTerminal(), viol(g, lb, -1) + viol(g, ub, 1), tol);
    }
}
// random container together with its model
template <int N, int M>
std::shared_ptr<ct::optcon::ConstraintContainerAnalytical<N, M>> randomContainer(Rng& r, ConStack<N, M>& in, ConStack<N, M>& te, int maxI = 4, int maxT = 3, bool tv = true)
{
    auto k = std::make_shared<ct::optcon::ConstraintContainerAnalytical<N, M>>();
    int ni = r.in(0, maxI), nt = r.in(0, maxT);
    for (int i = 0; i < ni; ++i) { auto p = randomTerm<N, M>(r, tv); k->addIntermediateConstraint(p.first, r.coin(0.2)); in.t.push_back(p.second); }
    for (int i = 0; i < nt; ++i) { auto p = randomTerm<N, M>(r, tv); k->addTerminalConstraint(p.first, r.coin(0.2)); te.t.push_back(p.second); }
    return k;
}
