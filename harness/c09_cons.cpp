// C09: constraint containers report the values, bounds and Jacobians of their terms.
#include "cons.hpp"
using namespace mon;
using namespace ct::core;
using namespace ct::optcon;

template <int N, int M>
static void compose(Case& c)
{
    ConStack<N, M> in, te;
    auto k = randomContainer<N, M>(c.rng, in, te, 5, 4);
    c.cfg = "I: " + in.names() + " T: " + te.names();
    k->initialize();
    c.check("initialized", k->isInitialized());
    std::shared_ptr<ConstraintContainerAnalytical<N, M>> cl(k->clone());
    StateVector<N> x;
    ControlVector<M> u;
    double t = 0;
    bool onClone = false;
    for (int q = 0; q < 4; ++q)
    {
        // later queries change only a part of the point
        if (!q || c.rng.coin()) x = c.rng.mat<N, 1>(-3, 3);
        if (!q || c.rng.coin()) u = c.rng.mat<M, 1>(-3, 3);
        if (!q || c.rng.coin()) t = c.rng.uni(-1, 4);
        if (!q || c.rng.coin()) onClone = c.rng.coin();
        auto& tgt = onClone ? *cl : *k;
        tgt.setCurrentStateAndControl(x, u, t);
        checkContainer<N, M>(c, "", tgt, in, te, x, u, t);
        // repeated queries give the same answers
        if (q == 0) checkContainer<N, M>(c, "again-", tgt, in, te, x, u, t);
    }
    if (in.t.empty() && te.t.empty()) c.nontrivial = true;
}
SCENARIO_W(compose_3_2, 2) { compose<3, 2>(c); }
SCENARIO(compose_1_1) { compose<1, 1>(c); }
SCENARIO(compose_2_3) { compose<2, 3>(c); }

// incremental construction: terms added after an initialisation count after re-initialisation, and are not silently ignored before
SCENARIO(staged)
{
    static const int N = 3, M = 2;
    ConStack<N, M> in, te;
    ConstraintContainerAnalytical<N, M> k;
    StateVector<N> x = c.rng.mat<N, 1>(-3, 3);
    ControlVector<M> u = c.rng.mat<M, 1>(-3, 3);
    double t = c.rng.uni(-1, 4);
    auto throws = [&](const std::function<void()>& f) {
        try { f(); } catch (std::runtime_error&) { return true; }
        return false;
    };
    k.setCurrentStateAndControl(x, u, t);
    int ops = c.rng.in(2, 7);
    bool initI = false, initT = false;
    for (int i = 0; i < ops; ++i)
    {
        int op = c.rng.in(0, 3);
        if (op == 0) { auto p = randomTerm<N, M>(c.rng); k.addIntermediateConstraint(p.first, false); in.t.push_back(p.second); initI = false; }
        else if (op == 1) { auto p = randomTerm<N, M>(c.rng); k.addTerminalConstraint(p.first, false); te.t.push_back(p.second); initT = false; }
        else if (op == 2) { k.initialize(); initI = initT = true; }
        else
        {
            if (c.rng.coin(0.6)) x = c.rng.mat<N, 1>(-3, 3);
            if (c.rng.coin(0.6)) u = c.rng.mat<M, 1>(-3, 3);
            if (c.rng.coin(0.6)) t = c.rng.uni(-1, 4);
            k.setCurrentStateAndControl(x, u, t);
        }
        c.sig.i(op);
        c.check("isInitialized", k.isInitialized() == (initI && initT));
        if (!initI)
        {
            c.check("uninit-throws", throws([&] { k.evaluateIntermediate(); }) && throws([&] { k.jacobianStateIntermediate(); }) && throws([&] { k.jacobianInputIntermediate(); }) &&
                                         throws([&] { k.jacobianStateSparseIntermediate(); }) && throws([&] { k.jacobianInputSparseIntermediate(); }));
        }
        if (!initT)
        {
            c.check("uninit-throws-T", throws([&] { k.evaluateTerminal(); }) && throws([&] { k.jacobianStateTerminal(); }) && throws([&] { k.jacobianInputTerminal(); }) &&
                                           throws([&] { k.jacobianStateSparseTerminal(); }) && throws([&] { k.jacobianInputSparseTerminal(); }));
        }
        if (initT && !initI && te.rows())
        {
            // terminal queries do not depend on the intermediate set being initialised
            c.nearm("terminal-alone", k.jacobianStateTerminal(), te.gx(x, u, t), 1e-11);
            c.nearm("terminal-alone-g", k.evaluateTerminal(), te.g(x, u, t), 1e-11);
        }
        if (initI && initT) checkContainer<N, M>(c, "", k, in, te, x, u, t);
    }
    c.nontrivial = true;
}
SCENARIO(ctor_state)
{
    static const int N = 3, M = 2;
    StateVector<N> x = c.rng.mat<N, 1>(-3, 3);
    ControlVector<M> u = c.rng.mat<M, 1>(-3, 3);
    double t = c.rng.uni(-1, 4);
    ConstraintContainerAnalytical<N, M> k(x, u, t);
    ConStack<N, M> in, te;
    for (int i = 0; i < 2; ++i)
    {
        auto p = randomTerm<N, M>(c.rng); k.addIntermediateConstraint(p.first, false); in.t.push_back(p.second);
        auto q = randomTerm<N, M>(c.rng); k.addTerminalConstraint(q.first, false); te.t.push_back(q.second);
    }
    k.initialize();
    checkContainer<N, M>(c, "", k, in, te, x, u, t);
}
// each term on its own
SCENARIO_W(terms, 2)
{
    static const int N = 4, M = 2;
    auto p = randomTerm<N, M>(c.rng);
    auto& m = p.second;
    auto& k = *p.first;
    std::shared_ptr<ConstraintBase<N, M>> cl(k.clone());
    c.cfg = m.kind;
    std::string nm;
    k.setName("abc");
    k.getName(nm);
    c.check("name", nm == "abc");
    StateVector<N> x;
    ControlVector<M> u;
    double t = 0;
    for (int q = 0; q < 4; ++q)
    {
        auto& e = q % 2 ? *cl : k;
        if (!q || c.rng.coin()) x = c.rng.mat<N, 1>(-3, 3);
        if (!q || c.rng.coin()) u = c.rng.mat<M, 1>(-3, 3);
        if (!q || c.rng.coin()) t = c.rng.uni(-1, 4);
        int rows = m.lb.size();
        c.check("size", (int)e.getConstraintSize() == rows);
        c.nearm("g", e.evaluate(x, u, t), m.g(x, u, t), 1e-11);
        c.nearm("gx", e.jacobianState(x, u, t), m.gx(x, u, t), 1e-11);
        c.nearm("gu", e.jacobianInput(x, u, t), m.gu(x, u, t), 1e-11);
        c.nearm("lb", e.getLowerBound(), m.lb, 0);
        c.nearm("ub", e.getUpperBound(), m.ub, 0);
        Eigen::VectorXi r, s;
        if (e.getNumNonZerosJacobianState()) { e.sparsityPatternState(r, s); c.nearm("gx-sparse", fromSparse(c, "gx", e.jacobianStateSparse(x, u, t), r, s, e.getNumNonZerosJacobianState(), rows, N), m.gx(x, u, t), 1e-11); }
        else c.check("gx-zero", m.gx(x, u, t).isZero());
        if (e.getNumNonZerosJacobianInput()) { e.sparsityPatternInput(r, s); c.nearm("gu-sparse", fromSparse(c, "gu", e.jacobianInputSparse(x, u, t), r, s, e.getNumNonZerosJacobianInput(), rows, M), m.gu(x, u, t), 1e-11); }
        else c.check("gu-zero", m.gu(x, u, t).isZero());
    }
}
// inconsistent box constraints are refused
SCENARIO(bad_boxes)
{
    static const int N = 3, M = 2;
    auto throws = [&](const std::function<void()>& f) {
        try { f(); } catch (std::runtime_error&) { return true; }
        return false;
    };
    Eigen::VectorXi sp = Eigen::VectorXi::Zero(N);
    for (int i = 0; i < N; ++i) sp(i) = c.rng.coin();
    int k = sp.sum(), wrong = c.rng.in(0, 5);
    c.cfg = str(sp.transpose()) + " given " + str(wrong);
    bool thr = throws([&] { StateConstraint<N, M> s(Eigen::VectorXd::Zero(wrong), Eigen::VectorXd::Ones(wrong), sp); });
    c.check("size", thr == (wrong != k));
    c.check("size-ub", throws([&] { StateConstraint<N, M> s(Eigen::VectorXd::Zero(k), Eigen::VectorXd::Ones(k + 1), sp); }));
    ControlVector<M> lb = c.rng.mat<M, 1>(), ub = c.rng.mat<M, 1>();
    bool bad = (lb.array() > ub.array()).any();
    c.check("order", throws([&] { ControlInputConstraint<N, M> s(lb, ub); }) == bad);
    c.nontrivial = true;
    c.sig.m(lb);
}
MON_MAIN
