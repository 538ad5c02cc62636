// C18: derivative engines and linearisers return the derivatives of the function they were given.
#include "symsys.hpp"
#include <thread>
using namespace mon;
using namespace ct::core;
static const int N = 4, M = 2, I = N + M;
typedef Dyn<N, M> D;
typedef Eigen::Matrix<double, I, 1> In;
typedef Eigen::Matrix<double, N, 1> Out;
typedef ADScalar AD;

template <class S>
static Eigen::Matrix<S, N, 1> eval(const D& d, const Eigen::Matrix<S, Eigen::Dynamic, 1>& z, double t)
{
    Eigen::Matrix<S, N, 1> x;
    Eigen::Matrix<S, M, 1> u;
    for (int i = 0; i < N; ++i) x(i) = z(i);
    for (int i = 0; i < M; ++i) u(i) = z(N + i);
    return d.template f<S>(x, u, S(t));
}
static Eigen::Matrix<double, N, I> jac(const D& d, const Eigen::VectorXd& z, double t)
{
    Eigen::Matrix<double, N, I> j;
    j << d.fx(z.head<N>(), z.tail<M>(), t), d.fu(z.head<N>(), z.tail<M>(), t);
    return j;
}
static Eigen::Matrix<double, I, I> hess(const D& d, const Eigen::VectorXd& z, double t, const Eigen::VectorXd& lam)
{
    Eigen::Matrix<double, N, I> hl;
    hl << d.H, d.L;
    Out s = (hl * z + d.w * t).array().sin();
    Eigen::Matrix<double, I, I> h;
    h.setZero();
    for (int j = 0; j < N; ++j)
    {
        double g = 0;
        for (int i = 0; i < N; ++i) g += lam(i) * d.G(i, j);
        h -= g * s(j) * hl.row(j).transpose() * hl.row(j);
    }
    return h;
}
// random point, with zeros, negative and large entries; the nonlinearity is scaled along with it
static Eigen::VectorXd point(Case& c, D& d)
{
    Eigen::VectorXd z = c.rng.dvec(I, -2, 2);
    if (c.rng.coin(0.3)) z(c.rng.in(0, I - 1)) = 0;
    if (c.rng.coin(0.25))
    {
        int k = c.rng.in(0, I - 1);
        double s = std::pow(10.0, c.rng.uni(1, 6));
        z(k) *= s;
        if (k < N) { d.H.col(k) /= s; d.A.col(k) /= s; }
        else { d.L.col(k - N) /= s; d.B.col(k - N) /= s; }
    }
    return z;
}
static double colscale(const Eigen::VectorXd& z, int i) { return std::max(1.0, std::abs(z(i))); }
// finite-difference error is relative to the column scale: compare J*diag(scale)
template <class J>
static Eigen::MatrixXd scaled(const J& j, const Eigen::VectorXd& z, int off = 0)
{
    Eigen::MatrixXd r = j;
    for (int i = 0; i < r.cols(); ++i) r.col(i) *= colscale(z, off + i);
    return r;
}

SCENARIO(numdiff)
{
    D d = D::random(c.rng);
    double t = c.rng.uni(-2, 5);
    Eigen::VectorXd z = point(c, d);
    bool two = c.rng.coin(), cl = c.rng.coin();
    int kind = c.rng.in(0, 2);
    c.cfg = "kind " + str(kind) + " twosided " + str(two) + " clone " + str(cl) + " z=" + str(z.transpose());
    c.sig.i(kind * 4 + two * 2 + cl);
    Eigen::MatrixXd want = jac(d, z, t), got;
    Eigen::VectorXd f0 = eval<double>(d, z, t), fz;
    auto go = [&](auto& e) {
        typename std::decay<decltype(e)>::type cp(e);
        std::unique_ptr<typename std::decay<decltype(e)>::type> k(e.clone());
        auto& q = cl ? *k : e;
        if (c.rng.coin()) q.jacobian(c.rng.dvec(I));
        got = q.jacobian(z);
        fz = q.forwardZero(z);
        c.nearm("copy", scaled(cp.jacobian(z), z), scaled(got, z), 1e-13);
    };
    if (kind == 0)
    {
        typedef DerivativesNumDiff<I, N> E;
        E::Function f = [&](const In& v) -> Out { return eval<double>(d, v, t); };
        E e(f, two);
        go(e);
    }
    else if (kind == 1)
    {
        typedef DerivativesNumDiff<-1, -1> E;
        E::Function f = [&](const Eigen::VectorXd& v) -> Eigen::VectorXd { return eval<double>(d, v, t); };
        E e(f, two);
        go(e);
    }
    else
    {
        typedef DerivativesNumDiff<I, -1> E;
        E::Function f = [&](const In& v) -> Eigen::VectorXd { return eval<double>(d, v, t); };
        E e(f, two);
        go(e);
    }
    c.nearm("jacobian", scaled(got, z), scaled(want, z), 3e-6);
    c.nearm("value", fz, f0, 1e-12);
}

template <class E>
static void adChecks(Case& c, E& e, const D& d, double t, const std::string& tag)
{
    Eigen::VectorXd z, lam;
    for (int k = 0; k < 3; ++k)
    {
        if (!k || c.rng.coin(0.7)) z = c.rng.dvec(I, -2, 2);
        if (!k || c.rng.coin(0.7)) lam = c.rng.dvec(N, -2, 2);
        if (k == 0 && c.rng.coin(0.3)) lam.setZero(), lam(c.rng.in(0, N - 1)) = 1;
        Eigen::MatrixXd J = jac(d, z, t), H = hess(d, z, t, lam);
        int first = c.rng.in(0, 2);  // order of the calls must not matter
        if (first == 0) c.nearm(tag + "value", e.forwardZero(z), eval<double>(d, z, t), 1e-11);
        if (first == 1) c.nearm(tag + "hessian", e.hessian(z, lam), H, 1e-10);
        c.nearm(tag + "jacobian", e.jacobian(z), J, 1e-11);
        c.nearm(tag + "value", e.forwardZero(z), eval<double>(d, z, t), 1e-11);
        c.nearm(tag + "hessian", e.hessian(z, lam), H, 1e-10);
        Eigen::VectorXd sj = e.sparseJacobianValues(z), sh = e.sparseHessianValues(z, lam);
        // row-major dense storage
        Eigen::VectorXd wj(N * I), wh(I * I);
        for (int i = 0; i < N; ++i)
            for (int j = 0; j < I; ++j) wj(i * I + j) = J(i, j);
        for (int i = 0; i < I; ++i)
            for (int j = 0; j < I; ++j) wh(i * I + j) = H(i, j);
        c.nearm(tag + "sparseJacobian", sj, wj, 1e-11);
        c.nearm(tag + "sparseHessian", sh, wh, 1e-10);
        Eigen::VectorXd v;
        Eigen::VectorXi r, q;
        e.sparseJacobian(z, v, r, q);
        c.nearm(tag + "sparseJacobian2", v, wj, 1e-11);
        e.sparseHessian(z, lam, v, r, q);
        c.nearm(tag + "sparseHessian2", v, wh, 1e-10);
    }
}
static D sparsify(Case& c, D d)
{
    if (c.rng.coin(0.4))
        for (int i = 0; i < N; ++i)
            for (int j = 0; j < N; ++j)
            {
                if (c.rng.coin(0.6)) d.A(i, j) = 0;
                if (c.rng.coin(0.6)) d.G(i, j) = 0;
                if (c.rng.coin(0.6)) d.H(i, j) = 0;
            }
    return d;
}
SCENARIO(cppad)
{
    D d = sparsify(c, D::random(c.rng)), d2 = sparsify(c, D::random(c.rng));
    double t = c.rng.uni(-2, 5);
    bool dyn = c.rng.coin();
    c.cfg = dyn ? "dynamic" : "fixed";
    typedef Eigen::Matrix<AD, Eigen::Dynamic, 1> VX;
    if (dyn)
    {
        typedef DerivativesCppad<-1, -1> E;
        E::FUN_TYPE_AD f = [&d, t](const VX& v) -> VX { return eval<AD>(d, v, t); };
        E::FUN_TYPE_AD g = [&d2, t](const VX& v) -> VX { return eval<AD>(d2, v, t); };
        bool late = c.rng.coin();
        E e = late ? E(f) : E(f, I, N);
        if (late) e.update(f, I, N);
        adChecks(c, e, d, t, "");
        std::unique_ptr<E> k(e.clone());
        e.update(g, I, N);
        adChecks(c, *k, d, t, "clone-");
        adChecks(c, e, d2, t, "updated-");
    }
    else
    {
        typedef DerivativesCppad<I, N> E;
        E::FUN_TYPE_AD f = [&d, t](const E::IN_TYPE_AD& v) -> E::OUT_TYPE_AD { return eval<AD>(d, v, t); };
        E::FUN_TYPE_AD g = [&d2, t](const E::IN_TYPE_AD& v) -> E::OUT_TYPE_AD { return eval<AD>(d2, v, t); };
        E e(f);
        adChecks(c, e, d, t, "");
        std::unique_ptr<E> k(e.clone());
        E cp(e);
        e.update(g);
        adChecks(c, *k, d, t, "clone-");
        adChecks(c, cp, d, t, "copy-");
        adChecks(c, e, d2, t, "updated-");
    }
}
// engines used from several threads after initParallel
SCENARIO(cppad_threads)
{
    static std::set<std::thread::id> ids;
    // CppAD's own rule: each vector type is used once in sequential mode before going parallel
    static bool once = [] {
        D d0;
        typedef DerivativesCppad<I, N> E0;
        E0::FUN_TYPE_AD f = [&](const E0::IN_TYPE_AD& v) -> E0::OUT_TYPE_AD { return eval<AD>(d0, v, 0.0); };
        CppadParallel::resetParallel();
        E0 e(f);
        e.jacobian(Eigen::VectorXd::Zero(I));
        CppadParallel::initParallel(48);
        return true;
    }();
    (void)once;
    if (ids.size() > 40) throw Skip();
    const int T = 4;
    typedef DerivativesCppad<I, N> E;
    std::vector<D> ds;
    std::vector<Eigen::VectorXd> zs;
    for (int i = 0; i < T; ++i) { ds.push_back(D::random(c.rng)); zs.push_back(c.rng.dvec(I, -2, 2)); }
    double t = c.rng.uni(0, 3);
    std::vector<Eigen::MatrixXd> js(T), ref(T);
    std::vector<std::thread> th;
    for (int i = 0; i < T; ++i)
        th.emplace_back([&, i] {
            E::FUN_TYPE_AD f = [&](const E::IN_TYPE_AD& v) -> E::OUT_TYPE_AD { return eval<AD>(ds[i], v, t); };
            E e(f);
            for (int k = 0; k < 5; ++k) js[i] = e.jacobian(zs[i]);
        });
    for (auto& x : th) ids.insert(x.get_id());
    for (auto& x : th) x.join();
    for (int i = 0; i < T; ++i) c.nearm("threaded-jacobian", js[i], jac(ds[i], zs[i], t), 1e-11);
}

SCENARIO(lin_raw)
{
    D d = D::random(c.rng);
    double t = c.rng.uni(-2, 5);
    Eigen::VectorXd z = point(c, d);
    bool two = c.rng.coin();
    c.cfg = "twosided " + str(two) + " z=" + str(z.transpose());
    typedef DynamicsLinearizerNumDiff<N, M, double, double> L;
    L::dynamics_fct_t f = [&](const StateVector<N>& x, const double& tt, const ControlVector<M>& u, StateVector<N>& o) { o = d.fd(x, u, tt); };
    L l(f, two), l2(l);
    L& q = c.rng.coin() ? l : l2;
    StateVector<N> x = z.head<N>();
    ControlVector<M> u = z.tail<M>();
    if (c.rng.coin()) q.getDerivativeControl(c.rng.mat<N, 1>(), c.rng.mat<M, 1>(), c.rng.uni());
    if (c.rng.coin()) c.nearm("dfdu-first", scaled(q.getDerivativeControl(x, u, t), z, N), scaled(d.fu(x, u, t), z, N), 3e-6);
    c.nearm("dfdx", scaled(q.getDerivativeState(x, u, t), z), scaled(d.fx(x, u, t), z), 3e-6);
    c.nearm("dfdu", scaled(q.getDerivativeControl(x, u, t), z, N), scaled(d.fu(x, u, t), z, N), 3e-6);
    for (int k = 0; k < 4; ++k)
    {
        // only a part of the point changes between queries
        if (c.rng.coin(0.3)) x(c.rng.in(0, N - 1)) *= c.rng.uni(0.5, 1);
        if (c.rng.coin(0.3)) u(c.rng.in(0, M - 1)) *= c.rng.uni(0.5, 1);
        if (c.rng.coin(0.6)) t = c.rng.uni(-2, 5);
        if (c.rng.coin(0.7)) c.nearm("dfdx-again", scaled(q.getDerivativeState(x, u, t), z), scaled(d.fx(x, u, t), z), 3e-6);
        if (c.rng.coin(0.7)) c.nearm("dfdu-again", scaled(q.getDerivativeControl(x, u, t), z, N), scaled(d.fu(x, u, t), z, N), 3e-6);
    }
    c.check("flag", q.getDoubleSidedDerivativeFlag() == two);
    typedef DynamicsLinearizerNumDiff<N, M, double, int> Li;
    Li::dynamics_fct_t fi = [&](const StateVector<N>& x, const int& n, const ControlVector<M>& u, StateVector<N>& o) { o = d.fd(x, u, 0.1 * n); };
    Li li(fi, two);
    int n = c.rng.in(0, 40);
    c.nearm("dfdx-n", scaled(li.getDerivativeState(x, u, n), z), scaled(d.fx(x, u, 0.1 * n), z), 3e-6);
    c.nearm("dfdu-n", scaled(li.getDerivativeControl(x, u, n), z, N), scaled(d.fu(x, u, 0.1 * n), z, N), 3e-6);
}

// continuous system wrapper with a settable type
struct TypedSys : public ControlledSystem<N, M>
{
    D d;
    std::shared_ptr<double> shift;  // shared mutable parameter: tells original and clone apart
    TypedSys(const D& dd, SYSTEM_TYPE ty) : ControlledSystem<N, M>(ty), d(dd) {}
    TypedSys* clone() const override { return new TypedSys(*this); }
    void computeControlledDynamics(const StateVector<N>& x, const double& t, const ControlVector<M>& u, StateVector<N>& dx) override { dx = d.fd(x, u, t); }
};
static D secondOrder(D d)
{
    d.A.topRows<2>().setZero();
    d.A.topRightCorner<2, 2>().setIdentity();
    d.B.topRows<2>().setZero();
    d.G.topRows<2>().setZero();
    d.c.head<2>().setZero();
    return d;
}
SCENARIO_W(lin_continuous, 2)
{
    bool so = c.rng.coin(), two = c.rng.coin();
    D d = D::random(c.rng);
    if (so) d = secondOrder(d);
    auto sys = std::make_shared<TypedSys>(d, so ? SECOND_ORDER : GENERAL);
    SystemLinearizer<N, M> l0(sys, two);
    std::shared_ptr<LinearSystem<N, M>> cl(l0.clone());
    bool useClone = c.rng.coin();
    D orig = d;
    // changing one of original/clone's system must not alter the other
    if (useClone) sys->d = D::random(c.rng);
    LinearSystem<N, M>& l = useClone ? *cl : l0;
    c.cfg = "second order " + str(so) + " twosided " + str(two) + " clone " + str(useClone);
    c.check("type", l.getType() == (so ? SECOND_ORDER : GENERAL));
    StateVector<N> x;
    ControlVector<M> u;
    double t = 0;
    for (int k = 0; k < 5; ++k)
    {
        if (!k || c.rng.coin()) x = c.rng.mat<N, 1>(-3, 3);
        if (!k || c.rng.coin()) u = c.rng.mat<M, 1>(-3, 3);
        if (!k || c.rng.coin()) t = c.rng.uni(0, 5);
        StateMatrix<N> A;
        StateControlMatrix<N, M> B;
        if (c.rng.coin()) { A = l.getDerivativeState(x, u, t); B = l.getDerivativeControl(x, u, t); }
        else l.getDerivatives(A, B, x, u, t);
        c.nearm("A", A, orig.fx(x, u, t), 1e-6);
        c.nearm("B", B, orig.fu(x, u, t), 1e-6);
        if (so)
        {
            c.nearm("A-top", A.topRows<2>(), orig.A.topRows<2>(), 0);
            c.nearm("B-top", B.topRows<2>(), orig.B.topRows<2>(), 0);
        }
        // the linear system's own dynamics are A x + B u
        StateVector<N> xx = c.rng.mat<N, 1>(), dx;
        (void)xx;
        l.computeControlledDynamics(x, t, u, dx);
        c.nearm("linear-dynamics", dx, A * x + B * u, 1e-10);
    }
}

struct DSys : public DiscreteControlledSystem<N, M>
{
    D d;
    DSys(const D& dd) : d(dd) {}
    DSys* clone() const override { return new DSys(*this); }
    void propagateControlledDynamics(const StateVector<N>& x, const int n, const ControlVector<M>& u, StateVector<N>& xn) override { xn = d.fd(x, u, 0.1 * n); }
};
SCENARIO_W(lin_discrete, 2)
{
    bool two = c.rng.coin(), useClone = c.rng.coin();
    D d = D::random(c.rng);
    auto sys = std::make_shared<DSys>(d);
    DiscreteSystemLinearizer<N, M> l0(sys, two);
    std::shared_ptr<DiscreteLinearSystem<N, M>> cl(l0.clone());
    if (useClone) sys->d = D::random(c.rng);
    DiscreteLinearSystem<N, M>& l = useClone ? *cl : l0;
    c.cfg = "twosided " + str(two) + " clone " + str(useClone);
    StateVector<N> x;
    ControlVector<M> u;
    for (int k = 0; k < 4; ++k)
    {
        if (!k || c.rng.coin()) x = c.rng.mat<N, 1>(-3, 3);
        if (!k || c.rng.coin()) u = c.rng.mat<M, 1>(-3, 3);
        int n = c.rng.in(0, 50);
        StateMatrix<N> A;
        StateControlMatrix<N, M> B;
        l.getAandB(x, u, x, n, 1, A, B);
        c.nearm("A", A, d.fx(x, u, 0.1 * n), 1e-6);
        c.nearm("B", B, d.fu(x, u, 0.1 * n), 1e-6);
        auto& dl = dynamic_cast<DiscreteSystemLinearizer<N, M>&>(l);
        A = dl.getDerivativeState(x, u, n + 3);
        B = dl.getDerivativeControl(x, u, n + 3);
        c.nearm("A2", A, d.fx(x, u, 0.1 * (n + 3)), 1e-6);
        c.nearm("B2", B, d.fu(x, u, 0.1 * (n + 3)), 1e-6);
    }
}
// scalar float instantiation and one-dimensional systems
SCENARIO(lin_small)
{
    typedef Dyn<1, 1> D1;
    D1 d = D1::random(c.rng);
    auto sys = std::make_shared<DynSys<1, 1>>(d);
    SystemLinearizer<1, 1> l(sys, c.rng.coin());
    StateVector<1> x = c.rng.mat<1, 1>(-3, 3);
    ControlVector<1> u = c.rng.mat<1, 1>(-3, 3);
    double t = c.rng.uni(0, 4);
    c.nearm("A", l.getDerivativeState(x, u, t), d.fx(x, u, t), 1e-6);
    c.nearm("B", l.getDerivativeControl(x, u, t), d.fu(x, u, t), 1e-6);
}
MON_MAIN
