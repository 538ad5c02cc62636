// C29: nonlinear programs assembled from user-defined cost and constraint terms, and their solution by the NLP solver.
// Oracle: own evaluation of the same functions (objective, constraints, dense Jacobian and Hessian of the Lagrangian), and the
// Karush-Kuhn-Tucker conditions of the returned point and multipliers.
#include "mon.hpp"
#include <ct/optcon/nlp/Nlp>
#include <set>
using namespace ct::optcon;
using Vec = Eigen::VectorXd;
using Mat = Eigen::MatrixXd;
using MapV = Eigen::Map<Vec>;
using MapI = Eigen::Map<Eigen::VectorXi>;

// g_i(x) = a_i'x + 0.5 x'Q_i x  over the variables of the row
struct Row
{
    Vec a; Mat Q;           // dense over all variables, zero outside the support
    std::vector<int> sup;   // support in the order in which the term lists it
    bool quad;
    double lb, ub;
    double val(const Vec& x) const { return a.dot(x) + 0.5 * x.dot(Q * x); }
    Vec grad(const Vec& x) const { return a + Q * x; }
};
struct Model
{
    int n;
    Mat H; Vec h; double c0;
    std::vector<std::vector<Row>> terms;
    Vec lb, ub;
    double f(const Vec& x) const { return 0.5 * x.dot(H * x) + h.dot(x) + c0; }
    Vec df(const Vec& x) const { return H * x + h; }
    std::vector<const Row*> rows() const { std::vector<const Row*> r; for (auto& t : terms) for (auto& q : t) r.push_back(&q); return r; }
};
enum Pat { LOWER, UPPER, FULL };
struct Con : DiscreteConstraintBase
{
    std::shared_ptr<OptVector> x; std::shared_ptr<Model> m; size_t k; Pat pat;
    long* prepared;
    const std::vector<Row>& R() const { return m->terms[k]; }
    Vec eval() override { Vec v(R().size()); for (size_t i = 0; i < R().size(); ++i) v(i) = R()[i].val(x->getOptimizationVars()); return v; }
    Vec evalSparseJacobian() override
    {
        Vec v(getNumNonZerosJacobian()); int c = 0;
        for (auto& r : R()) { Vec g = r.grad(x->getOptimizationVars()); for (int j : r.sup) v(c++) = g(j); }
        return v;
    }
    size_t getConstraintSize() override { return R().size(); }
    size_t getNumNonZerosJacobian() override { size_t s = 0; for (auto& r : R()) s += r.sup.size(); return s; }
    void genSparsityPattern(Eigen::VectorXi& i, Eigen::VectorXi& j) override
    {
        int c = 0;
        for (size_t q = 0; q < R().size(); ++q) for (int s : R()[q].sup) { i(c) = q; j(c) = s; ++c; }
    }
    std::vector<std::pair<int, int>> pattern() const
    {
        std::set<std::pair<int, int>> s;
        for (auto& r : R()) if (r.quad) for (int a : r.sup) for (int b : r.sup)
            if (pat == FULL || (pat == LOWER && a >= b) || (pat == UPPER && a <= b)) s.insert({a, b});
        return std::vector<std::pair<int, int>>(s.begin(), s.end());
    }
    void genSparsityPatternHessian(Eigen::VectorXi& i, Eigen::VectorXi& j) override
    {
        auto p = pattern(); i.resize(p.size()); j.resize(p.size());
        for (size_t q = 0; q < p.size(); ++q) { i(q) = p[q].first; j(q) = p[q].second; }
    }
    void sparseHessianValues(const Vec& ov, const Vec& lambda, Vec& hes) override
    {
        auto p = pattern(); hes.resize(p.size());
        for (size_t q = 0; q < p.size(); ++q)
        {
            hes(q) = 0;
            for (size_t r = 0; r < R().size(); ++r) hes(q) += lambda(r) * R()[r].Q(p[q].first, p[q].second);
        }
    }
    Vec getLowerBound() override { Vec v(R().size()); for (size_t i = 0; i < R().size(); ++i) v(i) = R()[i].lb; return v; }
    Vec getUpperBound() override { Vec v(R().size()); for (size_t i = 0; i < R().size(); ++i) v(i) = R()[i].ub; return v; }
    // expose the helpers for derived constraint classes
    using DiscreteConstraintBase::genDiagonalIndices;
    using DiscreteConstraintBase::genBlockIndices;
};
struct Container : DiscreteConstraintContainerBase
{
    long prep = 0, prepJ = 0;
    void prepareEvaluation() override { ++prep; }
    void prepareJacobianEvaluation() override { ++prepJ; }
    void add(std::shared_ptr<DiscreteConstraintBase> c) { this->constraints_.push_back(c); }
};
struct Cost : DiscreteCostEvaluatorBase
{
    std::shared_ptr<OptVector> x; std::shared_ptr<Model> m; Pat pat;
    double eval() override { return m->f(x->getOptimizationVars()); }
    void evalGradient(size_t n, Eigen::Map<Vec>& g) override { g = m->df(x->getOptimizationVars()); }
    std::vector<std::pair<int, int>> pattern() const
    {
        std::vector<std::pair<int, int>> p;
        for (int b = 0; b < m->n; ++b) for (int a = 0; a < m->n; ++a)
            if (m->H(a, b) != 0 && (pat == FULL || (pat == LOWER && a >= b))) p.push_back({a, b});
        return p;
    }
    void getSparsityPatternHessian(Eigen::VectorXi& i, Eigen::VectorXi& j) override
    {
        auto p = pattern(); i.resize(p.size()); j.resize(p.size());
        for (size_t q = 0; q < p.size(); ++q) { i(q) = p[q].first; j(q) = p[q].second; }
    }
    void sparseHessianValues(const Vec& ov, const Vec& omega, Vec& hes) override
    {
        auto p = pattern(); hes.resize(p.size());
        for (size_t q = 0; q < p.size(); ++q) hes(q) = omega(0) * m->H(p[q].first, p[q].second);
    }
};
struct MyNlp : Nlp
{
    long updates = 0;
    MyNlp(std::shared_ptr<OptVector> x, std::shared_ptr<DiscreteCostEvaluatorBase> c, std::shared_ptr<DiscreteConstraintContainerBase> g)
    { this->optVariables_ = x; this->costEvaluator_ = c; this->constraints_ = g; this->optVariables_->resizeConstraintVars(this->getConstraintsCount()); }
    void updateProblem() override { ++updates; }
};
struct Prob
{
    std::shared_ptr<Model> m; std::shared_ptr<OptVector> x; std::shared_ptr<Cost> cost; std::shared_ptr<Container> con; std::shared_ptr<MyNlp> nlp;
    Vec inside;
};
static const double INF = std::numeric_limits<double>::max();
static Row row(mon::Case& c, int n, bool quad, const Vec& in)
{
    Row r; r.a = Vec::Zero(n); r.Q = Mat::Zero(n, n); r.quad = quad;
    std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i;
    for (int i = n - 1; i > 0; --i) std::swap(p[i], p[c.rng.in(0, i)]);
    p.resize(c.rng.in(1, n)); r.sup = p;
    for (int j : p) r.a(j) = c.rng.uni(-2, 2);
    if (quad)
    {
        Mat S = c.rng.spd(p.size(), 0.2, 2.0);
        for (size_t i = 0; i < p.size(); ++i) for (size_t j = 0; j < p.size(); ++j) r.Q(p[i], p[j]) = S(i, j);
    }
    double v = r.val(in);
    r.lb = -INF; r.ub = INF;
    if (quad) r.ub = v + c.rng.uni(0.05, 2);   // convex
    else
        switch (c.rng.in(0, 3))
        {
            case 0: r.ub = v + c.rng.uni(0.05, 1); break;
            case 1: r.lb = v - c.rng.uni(0.05, 1); break;
            case 2: r.lb = v - c.rng.uni(0.05, 1); r.ub = v + c.rng.uni(0.05, 1); break;
            default: r.lb = r.ub = v;
        }
    return r;
}
static Prob make(mon::Case& c, bool exact)
{
    Prob P; P.m = std::make_shared<Model>(); auto& m = *P.m;
    int n = m.n = c.rng.in(1, 8);
    m.H = c.rng.spd(n, 0.3, 3);
    if (c.rng.coin(0.3)) m.H = Mat(m.H.diagonal().asDiagonal());
    m.h = c.rng.dvec(n, -4, 4); m.c0 = c.rng.uni(-3, 3);
    P.inside = c.rng.dvec(n, -1, 1);
    int nt = c.rng.in(0, 4), neq = 0;
    for (int t = 0; t < nt; ++t)
    {
        std::vector<Row> R; int k = c.rng.in(1, 3);
        for (int i = 0; i < k; ++i)
        {
            Row r = row(c, n, c.rng.coin(0.4), P.inside);
            if (r.lb == r.ub && (++neq > (n - 1) / 2 || (int)r.sup.size() < n)) r.ub = INF;   // few equalities, full rows: independent
            R.push_back(r);
        }
        m.terms.push_back(R);
    }
    m.lb = Vec::Constant(n, -INF); m.ub = Vec::Constant(n, INF);
    for (int i = 0; i < n; ++i) { if (c.rng.coin(0.4)) m.lb(i) = P.inside(i) - c.rng.uni(0.05, 1); if (c.rng.coin(0.4)) m.ub(i) = P.inside(i) + c.rng.uni(0.05, 1); }
    P.x = std::make_shared<OptVector>(n);
    P.cost = std::make_shared<Cost>(); P.cost->x = P.x; P.cost->m = P.m; P.cost->pat = c.rng.coin() ? LOWER : FULL;
    P.con = std::make_shared<Container>();
    for (size_t k = 0; k < m.terms.size(); ++k)
    {
        auto q = std::make_shared<Con>(); q->x = P.x; q->m = P.m; q->k = k; q->pat = c.rng.coin() ? LOWER : FULL; P.con->add(q);
    }
    P.nlp = std::make_shared<MyNlp>(P.x, P.cost, P.con);
    if (c.rng.coin(0.8)) P.x->setBounds(m.lb, m.ub); else { m.lb.setConstant(-INF); m.ub.setConstant(INF); }
    c.cfg += mon::str(n) + "v" + mon::str(nt) + "t ";
    return P;
}
// everything the Nlp reports, compared with the model
static void compare(mon::Case& c, Prob& P, const Vec& x, bool isNew)
{
    auto& m = *P.m; int n = m.n; auto R = m.rows(); int M = R.size();
    if (isNew) { Eigen::Map<const Vec> xm(x.data(), n); P.nlp->extractOptimizationVars(xm, true); }
    c.check("number of variables", (int)P.nlp->getVarCount() == n, mon::str(P.nlp->getVarCount()));
    c.check("number of constraints", (int)P.nlp->getConstraintsCount() == M, mon::str(P.nlp->getConstraintsCount()));
    int nnz = P.nlp->getNonZeroJacobianCount(), want = 0; for (auto r : R) want += r->sup.size();
    c.check("number of Jacobian entries", nnz == want, mon::str(nnz));
    std::vector<int> order{0, 1, 2, 3, 4, 5};
    for (int i = 5; i > 0; --i) std::swap(order[i], order[c.rng.in(0, i)]);
    for (int o : order)
        switch (o)
        {
            case 0: { double f = P.nlp->evaluateCostFun(); c.near("objective", f, m.f(x), 1e-10); c.sig.d(f); break; }
            case 1: { Vec g = Vec::Constant(n, NAN); MapV gm(g.data(), n); P.nlp->evaluateCostGradient(n, gm); c.nearm("objective gradient", g, m.df(x), 1e-10); break; }
            case 2:
            {
                Vec g = Vec::Constant(M, NAN), w(M); MapV gm(g.data(), M); long p = P.con->prep; P.nlp->evaluateConstraints(gm);
                for (int i = 0; i < M; ++i) w(i) = R[i]->val(x);
                if (M) c.nearm("constraint values", g, w, 1e-10);
                c.check("constraint evaluation is prepared", P.con->prep > p, "");
                Vec g2 = Vec::Constant(M, NAN); P.con->evalConstraints(g2); if (M) c.nearm("constraint values (vector)", g2, w, 1e-10);
                break;
            }
            case 3:
            {
                Vec v = Vec::Constant(nnz, NAN); MapV vm(v.data(), nnz); long p = P.con->prepJ; P.nlp->evaluateConstraintJacobian(nnz, vm);
                c.check("Jacobian evaluation is prepared", P.con->prepJ > p, "");
                Eigen::VectorXi i = Eigen::VectorXi::Constant(nnz, -7), j = i; MapI im(i.data(), nnz), jm(j.data(), nnz); P.nlp->getSparsityPatternJacobian(nnz, im, jm);
                Mat J = Mat::Zero(M, n), W = Mat::Zero(M, n); bool ok = true;
                for (int k = 0; k < nnz; ++k) { ok = ok && i(k) >= 0 && i(k) < M && j(k) >= 0 && j(k) < n; if (ok) J(i(k), j(k)) += v(k); }
                c.check("Jacobian pattern within range", ok, "");
                for (int k = 0; k < M; ++k) W.row(k) = R[k]->grad(x).transpose();
                if (M && ok) c.nearm("Jacobian", J, W, 1e-10);
                break;
            }
            case 4:
            {
                Vec a = Vec::Constant(n, NAN), b = a; MapV am(a.data(), n), bm(b.data(), n); P.nlp->getVariableBounds(am, bm, n);
                c.check("variable bounds", a == m.lb && b == m.ub, mon::str(a.transpose()));
                Vec l = Vec::Constant(M, NAN), u = l; MapV lm(l.data(), M), um(u.data(), M); P.nlp->getConstraintBounds(lm, um, M);
                bool ok = true; for (int i = 0; i < M; ++i) ok = ok && l(i) == R[i]->lb && u(i) == R[i]->ub;
                c.check("constraint bounds", ok, "");
                break;
            }
            case 5:
            {
                int nh = P.nlp->getNonZeroHessianCount();
                Eigen::VectorXi i = Eigen::VectorXi::Constant(nh, -7), j = i; MapI im(i.data(), nh), jm(j.data(), nh); P.nlp->getSparsityPatternHessian(nh, im, jm);
                Vec lam = c.rng.dvec(M, -2, 2); double of = c.rng.coin(0.2) ? 0.0 : c.rng.uni(-1, 2);
                Vec v = Vec::Constant(nh, NAN); MapV vm(v.data(), nh); Eigen::Map<const Vec> lamm(lam.data(), M);
                P.nlp->evaluateHessian(nh, vm, of, lamm);
                Mat Hh = Mat::Zero(n, n), W = of * m.H; bool ok = true; std::set<std::pair<int, int>> seen;
                for (int k = 0; k < M; ++k) W += lam(k) * R[k]->Q;
                for (int k = 0; k < nh; ++k) { ok = ok && i(k) < n && j(k) >= 0 && i(k) >= j(k) && seen.insert({i(k), j(k)}).second; if (ok) Hh(i(k), j(k)) += v(k); }
                c.check("Hessian pattern is a lower triangle without duplicates", ok, "");
                Mat L = W.triangularView<Eigen::Lower>();
                if (ok) c.nearm("Hessian of the Lagrangian", Hh, L, 1e-10);
                break;
            }
        }
    c.nontrivial = true;
}
SCENARIO(functions)
{
    Prob P = make(c, true); int n = P.m->n;
    Vec x = c.rng.dvec(n, -2, 2);
    long up = P.nlp->updates; size_t uc = P.x->getUpdateCount();
    for (int k = 0; k < 4; ++k)
    {
        bool isNew = k == 0 || c.rng.coin(0.6);
        if (isNew) x = c.rng.dvec(n, -2, 2);
        compare(c, P, x, isNew);
        if (isNew) { ++up; ++uc; }
        c.check("problem update on new variables only", P.nlp->updates == up && P.x->getUpdateCount() == uc, mon::str(P.nlp->updates));
        if (c.rng.coin(0.3))
        {   // old point: must be ignored
            Vec y = c.rng.dvec(n, -2, 2); Eigen::Map<const Vec> ym(y.data(), n); P.nlp->extractOptimizationVars(ym, false);
            c.check("unchanged variables", P.x->getOptimizationVars() == x, "");
        }
        if (c.rng.coin(0.2))
        {   // change of the problem data
            P.m->h = c.rng.dvec(n, -4, 4);
            for (auto& t : P.m->terms) for (auto& r : t) for (int j : r.sup) r.a(j) = c.rng.uni(-2, 2);
        }
        if (c.rng.coin(0.2)) { P.m->lb = x.array() - 1; P.m->ub = x.array() + c.rng.uni(0, 1); P.x->setBounds(P.m->lb, P.m->ub); }
    }
    Vec g = c.rng.dvec(n, -1, 1); P.x->setInitialGuess(g); Vec r(n); MapV rm(r.data(), n); P.nlp->getInitialGuess(n, rm);
    c.check("initial guess", r == g && P.x->getOptimizationVars() == g, "");
    compare(c, P, g, false);
    c.check("dimension check", P.x->checkOptimizationVarDimension(n) && !P.x->checkOptimizationVarDimension(n + 1), "");
}
SCENARIO(index_helpers)
{
    Con k; int n = 40; Eigen::VectorXi i = Eigen::VectorXi::Constant(n, -5), j = i; int pos = 0;
    std::vector<std::pair<int, int>> want;
    for (int t = 0; t < 4; ++t)
    {
        int col = c.rng.in(0, 9), cnt;
        if (c.rng.coin()) { int e = c.rng.in(0, 4); cnt = k.genDiagonalIndices(col, e, i, j, pos); for (int a = 0; a < e; ++a) want.push_back({a, col + a}); c.check("count", cnt == e, mon::str(cnt)); }
        else { int a = c.rng.in(0, 3), b = c.rng.in(0, 3); cnt = k.genBlockIndices(col, a, b, i, j, pos); for (int p = 0; p < a; ++p) for (int q = 0; q < b; ++q) want.push_back({p, col + q}); c.check("count", cnt == a * b, mon::str(cnt)); }
        pos += cnt;
    }
    bool ok = pos == (int)want.size();
    for (int q = 0; q < pos && ok; ++q) ok = i(q) == want[q].first && j(q) == want[q].second;
    for (int q = pos; q < n; ++q) ok = ok && i(q) == -5 && j(q) == -5;
    c.check("sparsity indices of diagonal and dense blocks", ok, ""); c.sig.i(pos); c.nontrivial = true;
}
static void kkt(mon::Case& c, Prob& P, const std::string& tag, double tol)
{
    auto& m = *P.m; int n = m.n; auto R = m.rows(); int M = R.size();
    Vec x = P.x->getOptimizationVars(), zl(n), zu(n), lam(M); MapV a(zl.data(), n), b(zu.data(), n), l(lam.data(), M);
    P.nlp->getBoundMultipliers(n, a, b); P.nlp->getLambdaVars(M, l);
    double sc = 1 + (M ? lam.cwiseAbs().maxCoeff() : 0) + std::max(zl.cwiseAbs().maxCoeff(), zu.cwiseAbs().maxCoeff());
    bool feas = true, sgn = true, comp = true; std::string d;
    for (int i = 0; i < n; ++i)
    {
        feas = feas && x(i) >= m.lb(i) - tol && x(i) <= m.ub(i) + tol;
        sgn = sgn && zl(i) >= -tol && zu(i) >= -tol;
        comp = comp && (m.lb(i) == -INF ? zl(i) == 0 : std::abs(zl(i) * (x(i) - m.lb(i))) < tol * sc) && (m.ub(i) == INF ? zu(i) == 0 : std::abs(zu(i) * (m.ub(i) - x(i))) < tol * sc);
    }
    Vec s = m.df(x) - zl + zu;
    for (int i = 0; i < M; ++i)
    {
        double v = R[i]->val(x); s += lam(i) * R[i]->grad(x);
        feas = feas && v >= R[i]->lb - tol && v <= R[i]->ub + tol;
        if (R[i]->lb == R[i]->ub) continue;
        if (R[i]->ub == INF) sgn = sgn && lam(i) <= tol * sc;
        if (R[i]->lb == -INF) sgn = sgn && lam(i) >= -tol * sc;
        double sl = lam(i) > 0 ? (R[i]->ub == INF ? 0 : R[i]->ub - v) : (R[i]->lb == -INF ? 0 : v - R[i]->lb);
        comp = comp && std::abs(lam(i) * sl) < 10 * tol * sc;
    }
    c.check(tag + " is feasible", feas, mon::str(x.transpose()));
    c.check(tag + " has multipliers of the right sign", sgn, mon::str(lam.transpose()) + " zl " + mon::str(zl.transpose()) + " zu " + mon::str(zu.transpose()));
    c.check(tag + " is complementary", comp, mon::str(lam.transpose()));
    c.check(tag + " is stationary", s.cwiseAbs().maxCoeff() < 10 * tol * sc, mon::str(s.transpose()));
    c.sig.m(Mat((x * 1e3).array().round().matrix())); c.nontrivial = true;
}
SCENARIO_W(solve, 1)
{
    bool exact = c.rng.coin();
    Prob P = make(c, exact); int n = P.m->n;
    NlpSolverSettings st; st.solverType_ = NlpSolverType::IPOPT; st.ipoptSettings_.printLevel_ = 0; st.ipoptSettings_.hessian_approximation_ = exact ? "exact" : "limited-memory";
    st.ipoptSettings_.max_iter_ = 2000; st.ipoptSettings_.constr_viol_tol_ = 1e-7;
    if (c.rng.coin(0.5)) P.x->setInitialGuess(c.rng.dvec(n, -3, 3));
    if (c.rng.coin(0.2)) P.x->setRandomInitialGuess();
    auto s = std::make_shared<IpoptSolver>(P.nlp, st);
    c.check("initialized", s->isInitialized(), "");
    c.cfg += exact ? "exact " : "bfgs ";
    int rounds = c.rng.in(1, 3);
    for (int k = 0; k < rounds; ++k)
    {
        bool ok = s->solve();
        if (!ok && !exact) throw mon::Skip();   // the quasi-Newton option may stall; the convex problem with exact Hessian may not
        c.check("convex program solved", ok, "round " + mon::str(k));
        if (ok) kkt(c, P, "solution", exact ? 1e-5 : 2e-4);
        // change the data and solve again
        if (c.rng.coin()) P.m->h = c.rng.dvec(n, -4, 4);
        if (c.rng.coin(0.3)) { P.m->lb = (P.inside.array() - c.rng.uni(0.1, 1)).matrix(); P.x->setBounds(P.m->lb, P.m->ub); }
        if (c.rng.coin(0.3)) P.x->setInitialGuess(c.rng.dvec(n, -3, 3));
        if (c.rng.coin(0.3)) s->prepareWarmStart(2000);
        else if (c.rng.coin(0.3)) { st.ipoptSettings_.tol_ = 1e-9; s->configure(st); }
    }
}
SCENARIO(iteration_limit)
{   // without success the solver must say so
    Prob P = make(c, true); int n = P.m->n;
    NlpSolverSettings st; st.ipoptSettings_.printLevel_ = 0; st.ipoptSettings_.hessian_approximation_ = "exact"; st.ipoptSettings_.max_iter_ = 0;
    P.x->setInitialGuess(c.rng.dvec(n, 5, 9)); P.m->h = c.rng.dvec(n, 20, 40);
    auto s = std::make_shared<IpoptSolver>(P.nlp, st);
    c.check("no success is reported before convergence", !s->solve(), ""); c.sig.i(n); c.nontrivial = true;
}
MON_MAIN
