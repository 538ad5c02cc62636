// C13 (functions and derivatives of the multiple-shooting NLP) and C14 (solutions of DMS problems)
#include "dms.hpp"
using mon::Case;
using namespace ct::optcon;

template <int N, int M>
struct Setup
{
    dms::Ref<N, M> ref;
    std::vector<std::shared_ptr<ct::core::ControlledSystem<N, M>>> sys;
    std::vector<std::shared_ptr<ct::core::LinearSystem<N, M>>> lin;
    std::vector<std::shared_ptr<CostFunctionQuadratic<N, M>>> cost;
    std::vector<std::shared_ptr<LinearConstraintContainer<N, M>>> in, st, ge;
    std::shared_ptr<DmsProblem<N, M>> make()
    {
        return std::make_shared<DmsProblem<N, M>>(ref.s, sys, lin, cost, in, st, ge, ct::core::StateVector<N>(ref.x0));
    }
};
typedef Eigen::VectorXd V;
typedef Eigen::Map<V> MapV;
typedef Eigen::Map<const V> MapC;

template <int N, int M>
void nlp(Case& c, int maxShots)
{
    Rng& r = c.rng;
    Setup<N, M> S;
    auto& ref = S.ref;
    ref.s = dms::settings(r, ref.T, ref.sub, maxShots);
    ref.d = Dyn<N, M>::random(r);
    ref.x0 = r.mat<N, 1>();
    auto cf = randomCostFunction<N, M>(r, ref.cost, 3, 2);
    for (size_t i = 0; i < ref.s.N_; ++i)
    {
        S.sys.push_back(std::make_shared<DynSys<N, M>>(ref.d));
        S.lin.push_back(std::make_shared<DynLin<N, M>>(ref.d));
        S.cost.push_back(std::shared_ptr<CostFunctionQuadratic<N, M>>(cf->clone()));
    }
    if (r.coin(0.4)) { ref.con.emplace_back(); S.in.push_back(dms::box<N, M>(r, ref.con.back(), false, false)); }
    if (r.coin(0.4)) { ref.con.emplace_back(); S.st.push_back(dms::box<N, M>(r, ref.con.back(), true, false)); }
    if (r.coin(0.6))
    {
        ref.con.emplace_back();
        auto k = randomContainer<N, M>(r, ref.con.back().first, ref.con.back().second, 2, 2);
        k->initialize();
        S.ge.push_back(k);
    }
    c.cfg = dms::name(ref.s, ref.sub) + " | " + ref.cost.names() + " | con " + std::to_string(S.in.size()) + std::to_string(S.st.size()) + " " + (S.ge.size() ? ref.con.back().first.names() + "/" + ref.con.back().second.names() : "-");
    for (int i = 0; i <= 4 * ref.K() * ref.sub; ++i)
        if (ref.cost.edge(i * ref.s.dt_sim_ / 2)) throw mon::Skip();
    auto p = S.make();
    const int n = ref.nw(), m = ref.nc();
    if (!c.check("var-count", (int)p->getVarCount() == n) || !c.check("con-count", (int)p->getConstraintsCount() == m, mon::str(p->getConstraintsCount()) + " want " + mon::str(m))) return;
    const int nnz = p->getNonZeroJacobianCount();
    Eigen::VectorXi iR(nnz), jC(nnz);
    auto pattern = [&] {
        iR.setConstant(-7); jC.setConstant(-7);
        Eigen::Map<Eigen::VectorXi> a(iR.data(), nnz), b(jC.data(), nnz);
        p->getSparsityPatternJacobian(nnz, a, b);
        std::set<std::pair<int, int>> seen;
        for (int i = 0; i < nnz; ++i)
        {
            if (!c.check("pattern-range", iR(i) >= 0 && iR(i) < m && jC(i) >= 0 && jC(i) < n, mon::str(i) + ": " + mon::str(iR(i)) + "," + mon::str(jC(i)))) return false;
            if (!c.check("pattern-unique", seen.insert({iR(i), jC(i)}).second, mon::str(iR(i)) + "," + mon::str(jC(i)))) return false;
        }
        return true;
    };
    if (!pattern()) return;
    V w = V::Zero(n), wold;
    auto fresh = [&] {
        // a complete new point, one entry, or one consecutive part of it
        V v = r.dvec(n, -1.5, 1.5);
        int how = w.isZero() ? 0 : r.in(0, 3), from = r.in(0, n - 1), len = how == 2 ? 1 : r.in(1, n);
        if (how < 2) w = v;
        else for (int i = from; i < std::min(n, from + len); ++i) w(i) = v(i);
        MapC x(w.data(), n);
        p->extractOptimizationVars(x, true);
    };
    fresh();
    bool haveJ = false, haveG = false;
    Eigen::MatrixXd J;
    V G;
    int steps = r.in(4, c.thorough ? 30 : 12);
    for (int k = 0; k < steps && c.seen.empty(); ++k)
    {
        switch (r.in(0, 9))
        {
            case 0: case 1: fresh(); haveJ = haveG = false; break;
            case 2: c.near("cost", p->evaluateCostFun(), ref.value(w), 1e-9); break;
            case 3:
            {
                V g = V::Constant(n, 1e30);
                MapV mg(g.data(), n);
                p->evaluateCostGradient(n, mg);
                if (!haveG) { G = ref.grad(w); haveG = true; }
                c.nearm("cost-gradient", g, G, 1e-6);
                break;
            }
            case 4: case 5:
            {
                V g = V::Constant(m, 1e30);
                MapV mg(g.data(), m);
                p->evaluateConstraints(mg);
                c.nearm("constraints", g, ref.cons(w), 1e-9);
                break;
            }
            case 6: case 7:
            {
                V v = V::Constant(nnz, 1e30);
                MapV mv(v.data(), nnz);
                p->evaluateConstraintJacobian(nnz, mv);
                Eigen::MatrixXd D = Eigen::MatrixXd::Zero(m, n);
                for (int i = 0; i < nnz; ++i) D(iR(i), jC(i)) += v(i);
                if (!haveJ) { J = ref.jac(w); haveJ = true; }
                c.nearm("jacobian", D, J, 1e-6);
                break;
            }
            case 8:
            {
                V lo(m), up(m), wl, wu;
                MapV a(lo.data(), m), b(up.data(), m);
                p->getConstraintBounds(a, b, m);
                ref.bounds(wl, wu);
                c.nearm("lower-bounds", lo, wl, 0);
                c.nearm("upper-bounds", up, wu, 0);
                V xl(n), xu(n);
                MapV xa(xl.data(), n), xb(xu.data(), n);
                p->getVariableBounds(xa, xb, n);
                c.check("variables-unbounded", xl.maxCoeff() <= -1e19 && xu.minCoeff() >= 1e19);
                if (!pattern()) return;
                break;
            }
            default:
            {
                const int what = r.in(0, 3);
                switch (what)
                {
                    case 0:
                        ref.x0 = r.mat<N, 1>();
                        p->changeInitialState(ct::core::StateVector<N>(ref.x0));
                        break;
                    case 1:
                        ref.sub = r.in(1, 4);
                        ref.T = ref.s.N_ * ref.sub * ref.s.dt_sim_;
                        p->changeTimeHorizon(ref.T);
                        c.near("horizon", p->getTimeHorizon(), ref.T, 1e-12);
                        break;
                    default:
                    {
                        ct::core::StateVectorArray<N> xs(ref.K() + 1);
                        ct::core::ControlVectorArray<M> us(ref.K() + 1);
                        V want(n), got = V::Constant(n, 1e30);
                        for (int i = 0; i <= ref.K(); ++i)
                        {
                            xs[i] = r.mat<N, 1>(); us[i] = r.mat<M, 1>();
                            want.segment<N>(i * (N + M)) = xs[i];
                            want.segment<M>(i * (N + M) + N) = us[i];
                        }
                        p->setInitialGuess(xs, us);
                        MapV mg(got.data(), n);
                        p->getInitialGuess(n, mg);
                        c.nearm("initial-guess", got, want, 0);
                    }
                }
                for (int i = 0; i <= 4 * ref.K() * ref.sub; ++i)
                    if (ref.cost.edge(i * ref.s.dt_sim_ / 2)) return;
                // a new horizon counts at once, also for the variables already set
                if (what != 1 || r.coin()) fresh();
                haveJ = haveG = false;
                auto ta = p->getTimeArray();
                c.check("grid-size", (int)ta.size() == ref.K() + 1);
                for (int i = 0; i <= ref.K() && i < (int)ta.size(); ++i) c.near("grid", ta[i], ref.t(i), 1e-12);
                auto xs = p->getStateSolution();
                auto us = p->getInputSolution();
                for (int i = 0; i <= ref.K(); ++i) { c.nearm("stored-states", xs[i], ref.x(w, i), 0); c.nearm("stored-inputs", us[i], ref.u(w, i), 0); }
            }
        }
    }
}
SCENARIO_W(nlp_2_1, 3) { nlp<2, 1>(c, 5); }
SCENARIO_W(nlp_3_2, 2) { nlp<3, 2>(c, 4); }
SCENARIO(nlp_1_3) { nlp<1, 3>(c, 6); }

SCENARIO(init_guess)
{
    Rng& r = c.rng;
    DmsSettings s;
    s.N_ = r.in(1, 8);
    OptVectorDms<2, 1> v((s.N_ + 1) * 3, s);
    V g0 = V::Constant((s.N_ + 1) * 3, 1e30);
    MapV m0(g0.data(), g0.size());
    v.getInitialGuess(g0.size(), m0);
    c.check("initial-guess-initialised", g0.allFinite() && g0.cwiseAbs().maxCoeff() < 1e20);
    ct::core::StateVector<2> a = r.mat<2, 1>(), b = r.mat<2, 1>();
    ct::core::ControlVector<1> u = r.mat<1, 1>();
    v.setInitGuess(a, b, u);
    MapV m1(g0.data(), g0.size());
    v.getInitialGuess(g0.size(), m1);
    for (size_t i = 0; i <= s.N_; ++i)
    {
        c.nearm("interpolated-state", g0.segment(3 * i, 2), a + (b - a) * (double(i) / s.N_), 1e-12);
        c.near("constant-input", g0(3 * i + 2), u(0), 0);
    }
}

// ---------------------------------------------------------------------------------------------- C14
template <int N, int M>
struct Quad
{
    typedef std::shared_ptr<CostFunctionQuadratic<N, M>> P;
    static P random(Rng& r, CostModel<N, M>& m, bool viaTerms)
    {
        typename CostFunctionQuadratic<N, M>::state_matrix_t Q = r.spd(N), Qf = r.spd(N);
        typename CostFunctionQuadratic<N, M>::control_matrix_t R = r.spd(M);
        Eigen::Matrix<double, N, 1> xr = r.mat<N, 1>(), xf = r.mat<N, 1>();
        Eigen::Matrix<double, M, 1> ur = r.mat<M, 1>();
        m = CostModel<N, M>();
        TermModel<N, M> a, b;
        a.kind = b.kind = T_QUAD;
        a.name = "i"; b.name = "f";
        a.Q = Q; a.R = R; a.xr = xr; a.ur = ur;
        b.Q = Qf; b.R.setZero(); b.xr = xf; b.ur.setZero();
        if (viaTerms)
        {
            auto k = std::make_shared<CostFunctionAnalytical<N, M>>();
            k->addIntermediateTerm(a.make());
            k->addFinalTerm(b.make());
            m.in.push_back(a); m.fi.push_back(b);
            return k;
        }
        a.Q = 0.5 * Q; a.R = 0.5 * R; b.Q = 0.5 * Qf;
        m.in.push_back(a); m.fi.push_back(b);
        return P(new CostFunctionQuadraticSimple<N, M>(Q, R, ct::core::StateVector<N>(xr), ct::core::ControlVector<M>(ur), ct::core::StateVector<N>(xf), Qf));
    }
};

template <int N, int M>
void solve(Case& c)
{
    Rng& r = c.rng;
    dms::Ref<N, M> ref;
    ref.s = dms::settings(r, ref.T, ref.sub, 6);
    ref.s.dt_sim_ = r.uni(0.05, 0.2);
    ref.T = ref.s.T_ = ref.s.N_ * ref.sub * ref.s.dt_sim_;
    if (r.coin(0.3)) ref.s.T_ = ref.T * r.uni(0.5, 2);  // the horizon of the problem decides
    auto& ip = ref.s.solverSettings_.ipoptSettings_;
    ip.tol_ = 1e-9; ip.constr_viol_tol_ = 1e-7; ip.max_iter_ = 500;
    double nlin = r.coin(0.5) ? 0.0 : 0.4;
    ref.d = Dyn<N, M>::random(r, nlin, nlin > 0);
    ref.x0 = r.mat<N, 1>();
    auto cf = Quad<N, M>::random(r, ref.cost, r.coin());
    auto sys = std::make_shared<DynSys<N, M>>(ref.d);
    auto lin = std::make_shared<DynLin<N, M>>(ref.d);
    ContinuousOptConProblem<N, M> ocp(ref.T, ct::core::StateVector<N>(ref.x0), sys, cf, lin);
    std::vector<std::pair<ConStack<N, M>, ConStack<N, M>>> con(3);
    auto terminal = [&](std::pair<ConStack<N, M>, ConStack<N, M>>& m) {
        auto k = std::make_shared<ConstraintContainerAnalytical<N, M>>();
        // one scalar mixed condition at the end, feasible through the free last input or the state
        auto q = std::make_shared<NlCon<N, M>>(r, 1, true);
        q->E *= 0.2;
        auto cp = std::make_shared<NlCon<N, M>>(*q);
        ConModel<N, M> cm;
        cm.lb = q->getLowerBound(); cm.ub = q->getUpperBound();
        cm.g = [cp](const Eigen::Matrix<double, N, 1>& x, const Eigen::Matrix<double, M, 1>& u, double t) { return Eigen::VectorXd(cp->Cm * x + cp->D * u + cp->E * (cp->F * x + cp->G * u + cp->w * t).array().sin().matrix()); };
        k->addTerminalConstraint(q, false);
        k->initialize();
        m.second.t.push_back(cm);
        return k;
    };
    bool hasIn = r.coin(0.4), hasSt = r.coin(0.4), hasGe = r.coin(0.3);
    if (hasIn) ocp.setInputBoxConstraints(dms::box<N, M>(r, con[0], false, true));
    if (hasSt) ocp.setStateBoxConstraints(dms::box<N, M>(r, con[1], true, true, 1.5));
    if (hasGe) ocp.setGeneralConstraints(terminal(con[2]));
    ref.con = con;
    c.cfg = dms::name(ref.s, ref.sub) + (nlin > 0 ? " nonlinear" : " lq") + (hasIn ? " inputbox" : "") + (hasSt ? " statebox" : "") + (hasGe ? " terminal" : "");
    DmsSolver<N, M> solver(ocp, ref.s);
    int rounds = r.in(1, c.thorough ? 5 : 3);
    std::string hist;
    for (int k = 0; k < rounds && c.seen.empty(); ++k)
    {
        if (k > 0)
        {
            int what = r.in(0, 7);
            switch (what)
            {
                case 0: ref.x0 = r.mat<N, 1>(); solver.changeInitialState(ct::core::StateVector<N>(ref.x0)); hist += " x0"; break;
                case 1: ref.sub = r.in(1, 4); ref.T = ref.s.N_ * ref.sub * ref.s.dt_sim_; solver.changeTimeHorizon(ref.T); hist += " T"; break;
                case 2: solver.changeCostFunction(Quad<N, M>::random(r, ref.cost, r.coin())); hist += " cost"; break;
                case 3:
                    ref.d = Dyn<N, M>::random(r, nlin, nlin > 0);
                    solver.changeNonlinearSystem(std::make_shared<DynSys<N, M>>(ref.d));
                    solver.changeLinearSystem(std::make_shared<DynLin<N, M>>(ref.d));
                    hist += " dyn";
                    break;
                case 4: ref.con[0] = {}; solver.changeInputBoxConstraints(dms::box<N, M>(r, ref.con[0], false, true)); hist += " box"; break;
                case 5: ref.con[2] = {}; solver.changeGeneralConstraints(terminal(ref.con[2])); hist += " gen"; break;
                case 6: ref.con[1] = {}; solver.changeStateBoxConstraints(dms::box<N, M>(r, ref.con[1], true, true, 1.5)); hist += " sbox"; break;
                default: hist += " again";
            }
        }
        if (r.coin())
        {
            DmsPolicy<N, M> g;
            for (int i = 0; i <= ref.K(); ++i) { g.xSolution_.push_back(ct::core::StateVector<N>(r.mat<N, 1>())); g.uSolution_.push_back(ct::core::ControlVector<M>(r.mat<M, 1>())); }
            solver.setInitialGuess(g);
            hist += " guess";
        }
        bool ok = solver.solve();
        hist += ok ? " S" : " F";
        c.cfg = c.cfg.substr(0, c.cfg.find(" hist")) + " hist" + hist;
        c.sig.i(ok);
        bool convex = nlin == 0 && ref.con[2].second.t.empty() && ref.con[1].first.t.empty();
        c.check("convex-problem-solved", ok || !convex);
        auto pol = solver.getSolution();
        if (!c.check("solution-size", (int)pol.xSolution_.size() == ref.K() + 1 && (int)pol.uSolution_.size() == ref.K() + 1 && (int)pol.tSolution_.size() == ref.K() + 1)) return;
        V w(ref.nw());
        for (int i = 0; i <= ref.K(); ++i)
        {
            w.segment<N>(i * (N + M)) = pol.xSolution_[i];
            w.segment<M>(i * (N + M) + N) = pol.uSolution_[i];
            c.near("time", pol.tSolution_[i], ref.t(i), 1e-12);
        }
        auto xt = solver.getStateTrajectory();
        auto ut = solver.getControlTrajectory();
        c.check("trajectory-size", (int)xt.size() == ref.K() + 1 && (int)ut.size() == ref.K() + 1);
        for (int i = 0; i < (int)xt.size() && i <= ref.K(); ++i)
        {
            c.nearm("trajectory-x", xt[i], pol.xSolution_[i], 0);
            c.nearm("trajectory-u", ut[i], pol.uSolution_[i], 0);
            c.near("trajectory-t", xt.getTimeArray()[i], ref.t(i), 1e-12);
        }
        c.near("reported-horizon", solver.getTimeHorizon(), ref.T, 1e-12);
        if (!ok) continue;
        V g = ref.cons(w), lo, up;
        ref.bounds(lo, up);
        double viol = 0;
        for (int i = 0; i < g.size(); ++i) viol = std::max(viol, std::max(lo(i) - g(i), g(i) - up(i)));
        c.check("feasible", viol <= 1e-3, "violation " + mon::str(viol));
        c.nontrivial = true;
        c.sig.m(w);
        // stationarity: the gradient lies in the span of the active constraint gradients
        V gr = ref.grad(w);
        Eigen::MatrixXd J = ref.jac(w);
        std::vector<int> act;
        for (int i = 0; i < g.size(); ++i)
            if (g(i) - lo(i) < 1e-3 || up(i) - g(i) < 1e-3) act.push_back(i);
        Eigen::MatrixXd A(act.size(), ref.nw());
        for (size_t i = 0; i < act.size(); ++i) A.row(i) = J.row(act[i]);
        V lam = A.transpose().colPivHouseholderQr().solve(gr);
        double res = (gr - A.transpose() * lam).cwiseAbs().maxCoeff();
        c.check("stationary", res <= 2e-2 * (1 + gr.cwiseAbs().maxCoeff()), "residual " + mon::str(res));
    }
    c.sample(c.cfg);
}
SCENARIO_W(dms_solve_2_1, 2) { solve<2, 1>(c); }
SCENARIO(dms_solve_3_2) { solve<3, 2>(c); }
MON_MAIN
