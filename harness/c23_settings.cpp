// C23: settings structures, matrices and scalars loaded from configuration files take the values of the file
#include "mon.hpp"
#include <ct/core/core.h>
#include <ct/optcon/optcon.h>
using namespace ct::core;
using namespace ct::optcon;
using mon::Case; using mon::Rng; using mon::str; using mon::full;

// a configuration file under construction
struct Node
{
    std::string value; bool hasValue = false;
    std::vector<std::pair<std::string, std::shared_ptr<Node>>> kids;
    Node* get(const std::string& k)
    {
        for (auto& p : kids) if (p.first == k) return p.second.get();
        kids.push_back({k, std::make_shared<Node>()});
        return kids.back().second.get();
    }
    void set(const std::string& path, const std::string& v)
    {
        Node* n = this;
        std::stringstream ss(path);
        std::string p;
        while (std::getline(ss, p, '.')) n = n->get(p);
        n->value = v; n->hasValue = true;
    }
    void emit(std::ostream& o, Rng& r, int depth = 0) const
    {
        std::vector<int> order(kids.size());
        for (size_t i = 0; i < order.size(); ++i) order[i] = i;
        for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.in(0, i - 1)]);
        for (int i : order)
        {
            auto& p = kids[i];
            o << std::string(r.in(0, 3), ' ') << p.first;
            if (p.second->hasValue)
            {
                bool q = r.coin(0.2) || p.second->value.find(' ') != std::string::npos || p.second->value.empty();
                o << "  " << (q ? "\"" : "") << p.second->value << (q ? "\"" : "");
            }
            if (r.coin(0.1)) o << " ; a comment";
            o << "\n";
            if (p.second->kids.size()) { o << "{\n"; p.second->emit(o, r, depth + 1); o << "}\n"; }
            if (r.coin(0.05)) o << "unrelated 3\n";
        }
    }
    std::string file(Rng& r, const char* tag) const
    {
        std::stringstream o;
        if (r.coin(0.3)) o << "unrelated { a 1\n b 2\n }\n";
        emit(o, r);
        return mon::writefile(tag, o.str());
    }
};

struct Gen
{
    Rng& r; Node file; std::string ns;
    Gen(Rng& rr, const std::string& n) : r(rr), ns(n) {}
    double dbl()
    {
        switch (r.in(0, 4))
        {
            case 0: return r.in(-5, 5);
            case 1: return std::pow(10.0, r.in(-12, 6)) * r.uni(-1, 1);
            default: return r.uni(-10, 10);
        }
    }
    double pos() { return r.coin() ? r.uni(1e-3, 5) : std::pow(10.0, r.uni(-9, 2)); }
    std::string d(double v) { return r.coin(0.8) ? full(v) : [&] { char b[64]; snprintf(b, 64, "%.17e", v); return std::string(b); }(); }
    std::string b(bool v) { return r.coin() ? (v ? "true" : "false") : (v ? "1" : "0"); }
    // each puts a random value into the file and returns it
    double D(const std::string& k) { double v = dbl(); file.set(ns + "." + k, d(v)); return v; }
    double P(const std::string& k) { double v = pos(); file.set(ns + "." + k, d(v)); return v; }
    int I(const std::string& k, int lo = 0, int hi = 100000) { int v = r.in(lo, hi); file.set(ns + "." + k, str(v)); return v; }
    bool B(const std::string& k) { bool v = r.coin(); file.set(ns + "." + k, b(v)); return v; }
    std::string S(const std::string& k, const std::string& v) { file.set(ns + "." + k, v); return v; }
    Eigen::MatrixXd M(const std::string& k, int rows, int cols)
    {
        Eigen::MatrixXd m(rows, cols);
        double sc = 1;
        std::string p = ns.empty() ? k : ns + "." + k;
        if (r.coin(0.5)) { sc = dbl(); file.set(p + ".scaling", d(sc)); }
        for (int i = 0; i < rows; ++i)
            for (int j = 0; j < cols; ++j)
            {
                m(i, j) = 0;
                if (r.coin(0.2)) continue;
                double v = dbl();
                m(i, j) = sc * v;
                file.set(p + ".(" + str(i) + "," + str(j) + ")", d(v));
            }
        return m;
    }
};

#define EQ(NAME, GOT, WANT) c.near(NAME, double(GOT), double(WANT), 0)
#define SEQ(NAME, GOT, WANT) c.check(NAME, (GOT) == (WANT), std::string("got ") + (GOT) + " want " + (WANT))
static std::string ident(Rng& r)
{
    const char* n[] = {"alg", "settings", "my_block", "dms", "solver2", "a", "X9"};
    std::string s = n[r.in(0, 6)];
    if (r.coin(0.3)) s += std::string(".") + n[r.in(0, 6)];
    return s;
}

SCENARIO_W(matrix, 3)
{
    Rng& r = c.rng;
    std::string ns = r.coin(0.3) ? "" : ident(r);
    Gen g(r, ns);
    bool same = r.coin();
    Eigen::MatrixXd a = g.M("A", 3, 2), q = g.M("mat_b", 1, 4), y = g.M("Y", r.in(1, 12), r.in(1, 12));
    double s = g.dbl(); int k = r.in(-100, 100); bool b = r.coin();
    std::string pre = ns.empty() ? "" : ns + ".";
    g.file.set(pre + "s", g.d(s)); g.file.set(pre + "k", str(k)); g.file.set(pre + "b", g.b(b));
    std::string fn = g.file.file(r, "mat");
    Eigen::Matrix<double, 3, 2> A; A.setConstant(7);
    Eigen::Matrix<double, 1, 4> Q; Q.setConstant(7);
    Eigen::MatrixXd Y(y.rows(), y.cols()); Y.setConstant(7);
    if (same || ns.empty())
    {
        loadMatrix(fn, pre + "A", A); loadMatrix(fn, pre + "mat_b", Q); loadMatrix(fn, pre + "Y", Y);
    }
    else
    {
        loadMatrix(fn, "A", A, pre); loadMatrix(fn, "mat_b", Q, pre); loadMatrix(fn, "Y", Y, pre);
    }
    c.nearm("matrix", A, a, 0); c.nearm("row", Q, q, 0); c.nearm("dynamic", Y, y, 0);
    double s2 = 0, s3 = 0, s4 = 0; int k2 = 0, k3 = 0; bool b2 = !b;
    loadScalar(fn, "s", s2, pre); EQ("scalar", s2, s);
    loadScalar(fn, pre + "k", k2); EQ("scalar-int", k2, k);
    loadScalar(fn, "b", b2, pre); EQ("scalar-bool", b2, b);
    loadScalarOptional(fn, "s", s3, -77.5, pre); EQ("optional-present", s3, s);
    loadScalarOptional(fn, "not_there", s4, -77.5, pre); EQ("optional-default", s4, -77.5);
    loadScalarOptional(fn, "k", k3, 12345, pre); EQ("optional-int", k3, k);
    bool threw = false;
    try { loadScalar(fn, "not_there", s2, pre); } catch (std::exception&) { threw = true; }
    c.check("missing-scalar", threw);
    threw = false;
    try { loadScalar(fn + ".none", "s", s2, pre); } catch (std::exception&) { threw = true; }
    c.check("missing-file", threw);
    c.sig.m(a); c.sig.d(s);
}

struct LS { int type; bool adaptive; long maxIt; double a0, amax, na, arm; bool dbg; };
static const char* lsNames[] = {"NONE", "SIMPLE", "ARMIJO", "GOLDSTEIN"};
static LS randomLs(Gen& g, const LineSearchSettings& old)
{
    Rng& r = g.r;
    LS l;
    l.type = r.in(0, 3); g.S("type", lsNames[l.type]);
    l.maxIt = g.I("maxIterations", 0, 500); l.a0 = g.P("alpha_0"); l.na = g.P("n_alpha"); l.dbg = g.B("debugPrint");
    l.amax = l.a0; l.adaptive = false; l.arm = old.armijo_parameter;
    if (r.coin()) l.amax = g.P("alpha_max");
    if (r.coin()) l.adaptive = g.B("adaptive");
    if (r.coin()) l.arm = g.P("armijo_parameter");
    return l;
}
static void checkLs(Case& c, const LineSearchSettings& s, const LS& l)
{
    EQ("ls-type", s.type, l.type); EQ("ls-adaptive", s.adaptive, l.adaptive); EQ("ls-maxIterations", s.maxIterations, l.maxIt);
    EQ("ls-alpha_0", s.alpha_0, l.a0); EQ("ls-alpha_max", s.alpha_max, l.amax); EQ("ls-n_alpha", s.n_alpha, l.na);
    EQ("ls-armijo", s.armijo_parameter, l.arm); EQ("ls-debugPrint", s.debugPrint, l.dbg);
    EQ("ls-ok", s.parametersOk(), l.a0 > 0 && l.na > 0 && l.na < 1 && l.amax > 0);
}

SCENARIO_W(nloc, 5)
{
    Rng& r = c.rng;
    std::string ns = ident(r);
    NLOptConSettings s;
    // earlier contents
    s.epsilon = r.uni(); s.dt = r.uni(); s.K_sim = r.in(1, 9); s.max_iterations = r.in(0, 50); s.nThreads = r.in(1, 20); s.nThreadsEigen = r.in(1, 20);
    s.lineSearchSettings.armijo_parameter = r.uni();
    NLOptConSettings w = s;
    Gen g(r, ns);
    double pr = r.coin(0.3) ? 1.0 : r.uni();
    auto on = [&] { return r.coin(pr); };
    if (on()) w.epsilon = g.D("epsilon");
    if (on()) w.dt = r.coin(0.8) ? g.P("dt") : g.D("dt");
    if (on()) w.K_sim = g.I("K_sim", -1, 40);
    if (on()) w.K_shot = g.I("K_shot", -1, 5);
    if (on()) w.min_cost_improvement = g.D("min_cost_improvement");
    if (on()) w.maxDefectSum = g.D("maxDefectSum");
    if (on()) w.meritFunctionRho = g.D("meritFunctionRho");
    if (on()) w.meritFunctionRhoConstraints = g.D("meritFunctionRhoConstraints");
    if (on()) w.max_iterations = g.I("max_iterations");
    if (on()) w.fixedHessianCorrection = g.B("fixedHessianCorrection");
    if (on()) w.recordSmallestEigenvalue = g.B("recordSmallestEigenvalue");
    if (on()) w.nThreads = g.I("nThreads", 1, 120);
    if (on()) w.nThreadsEigen = g.I("nThreadsEigen", 1, 120);
    if (on()) w.timeVaryingDiscretization = g.B("timeVaryingDiscretization");
    if (on()) w.debugPrint = g.B("debugPrint");
    if (on()) w.printSummary = g.B("printSummary");
    if (on()) w.useSensitivityIntegrator = g.B("useSensitivityIntegrator");
    if (on()) w.logToMatlab = g.B("logToMatlab");
    if (on()) w.loggingPrefix = g.S("loggingPrefix", r.coin() ? "pre fix" : "log_7");
    const char* in[] = {"Euler", "RK4", "MODIFIED_MIDPOINT", "ODE45", "RK5VARIABLE", "RK78", "BULIRSCHSTOER", "EulerCT", "RK4CT", "Euler_Sym", "Rk_Sym"};
    const IntegrationType it[] = {EULER, RK4, MODIFIED_MIDPOINT, ODE45, RK5VARIABLE, RK78, BULIRSCHSTOER, EULERCT, RK4CT, EULER_SYM, RK_SYM};
    typedef SensitivityApproximationSettings::APPROXIMATION AP;
    const char* dn[] = {"Forward_euler", "Backward_euler", "Symplectic_euler", "Tustin", "Matrix_exponential"};
    const AP dv[] = {AP::FORWARD_EULER, AP::BACKWARD_EULER, AP::SYMPLECTIC_EULER, AP::TUSTIN, AP::MATRIX_EXPONENTIAL};
    const char* an[] = {"GNMS", "ILQR", "MS_ILQR", "SS_OL", "SS_CL", "GNMS_M_OL", "GNMS_M_CL"};
    typedef NLOptConSettings NS;
    const NS::NLOCP_ALGORITHM av[] = {NS::GNMS, NS::ILQR, NS::MS_ILQR, NS::SS_OL, NS::SS_CL, NS::GNMS_M_OL, NS::GNMS_M_CL};
    const bool closed[] = {false, true, true, false, true, false, true}, single[] = {false, true, false, true, true, false, false};
    int alg = 0;
    if (on()) { int k = r.in(0, 10); g.S("integrator", in[k]); w.integrator = it[k]; }
    if (on()) { int k = r.in(0, 4); g.S("discretization", dn[k]); w.discretization = dv[k]; }
    if (on()) { alg = r.in(0, 6); g.S("nlocp_algorithm", an[alg]); w.nlocp_algorithm = av[alg]; }
    if (on()) { int k = r.in(0, 1); g.S("locp_solver", k ? "HPIPM_SOLVER" : "GNRICCATI_SOLVER"); w.lqocp_solver = k ? NS::HPIPM_SOLVER : NS::GNRICCATI_SOLVER; }
    LS l; bool hasLs = on();
    if (hasLs) { Gen h(r, ns + ".line_search"); std::swap(h.file, g.file); l = randomLs(h, s.lineSearchSettings); std::swap(h.file, g.file); }
    if (on()) { w.lqoc_solver_settings.num_lqoc_iterations = r.in(0, 999); g.file.set(ns + ".lqoc_solver_settings.num_lqoc_iterations", str(w.lqoc_solver_settings.num_lqoc_iterations)); }
    if (on()) { w.lqoc_solver_settings.lqoc_debug_print = r.coin(); g.file.set(ns + ".lqoc_solver_settings.lqoc_debug_print", g.b(w.lqoc_solver_settings.lqoc_debug_print)); }
    std::string fn = g.file.file(r, "nloc");
    s.load(fn, r.coin(), ns);
    EQ("epsilon", s.epsilon, w.epsilon); EQ("dt", s.dt, w.dt); EQ("K_sim", s.K_sim, w.K_sim); EQ("K_shot", s.K_shot, w.K_shot);
    EQ("min_cost_improvement", s.min_cost_improvement, w.min_cost_improvement); EQ("maxDefectSum", s.maxDefectSum, w.maxDefectSum);
    EQ("meritFunctionRho", s.meritFunctionRho, w.meritFunctionRho); EQ("meritFunctionRhoConstraints", s.meritFunctionRhoConstraints, w.meritFunctionRhoConstraints);
    EQ("max_iterations", s.max_iterations, w.max_iterations); EQ("fixedHessianCorrection", s.fixedHessianCorrection, w.fixedHessianCorrection);
    EQ("recordSmallestEigenvalue", s.recordSmallestEigenvalue, w.recordSmallestEigenvalue); EQ("nThreads", s.nThreads, w.nThreads);
    EQ("nThreadsEigen", s.nThreadsEigen, w.nThreadsEigen); EQ("timeVaryingDiscretization", s.timeVaryingDiscretization, w.timeVaryingDiscretization);
    EQ("debugPrint", s.debugPrint, w.debugPrint); EQ("printSummary", s.printSummary, w.printSummary);
    EQ("useSensitivityIntegrator", s.useSensitivityIntegrator, w.useSensitivityIntegrator); EQ("logToMatlab", s.logToMatlab, w.logToMatlab);
    SEQ("loggingPrefix", s.loggingPrefix, w.loggingPrefix);
    EQ("integrator", s.integrator, w.integrator); EQ("discretization", (int)s.discretization, (int)w.discretization);
    EQ("nlocp_algorithm", s.nlocp_algorithm, w.nlocp_algorithm); EQ("lqocp_solver", s.lqocp_solver, w.lqocp_solver);
    EQ("num_lqoc_iterations", s.lqoc_solver_settings.num_lqoc_iterations, w.lqoc_solver_settings.num_lqoc_iterations);
    EQ("lqoc_debug_print", s.lqoc_solver_settings.lqoc_debug_print, w.lqoc_solver_settings.lqoc_debug_print);
    if (hasLs) checkLs(c, s.lineSearchSettings, l);
    else EQ("ls-kept", s.lineSearchSettings.armijo_parameter, w.lineSearchSettings.armijo_parameter);
    EQ("closedLoopShooting", s.closedLoopShooting(), closed[alg]); EQ("isSingleShooting", s.isSingleShooting(), single[alg]);
    if (w.K_sim != 0) c.near("simulation-step", s.getSimulationTimestep(), w.dt / w.K_sim, 1e-15 * (1 + std::fabs(w.dt)));
    bool lsOk = s.lineSearchSettings.alpha_0 > 0 && s.lineSearchSettings.n_alpha > 0 && s.lineSearchSettings.n_alpha < 1 && s.lineSearchSettings.alpha_max > 0;
    EQ("valid", s.parametersOk(), w.dt > 0 && w.K_sim > 0 && w.K_shot > 0 && !(w.K_shot > 1 && alg == 1) && w.nThreads <= 100 && w.nThreadsEigen <= 100 && lsOk);
    if (w.dt > 1e-6)
    {
        int k = r.in(0, 500);
        EQ("computeK", s.computeK(w.dt * (k + (k ? r.uni(-0.45, 0.45) : r.uni(0, 0.45)))), std::max(1, k));
        bool threw = false;
        try { s.computeK(-r.uni(0.1, 3)); } catch (std::exception&) { threw = true; }
        c.check("negative-horizon", threw);
    }
    // a fresh structure read from the same file agrees wherever the file says something
    NLOptConSettings f = NLOptConSettings::fromConfigFile(fn, false, ns);
    NLOptConSettings f2; f2.load(fn, false, ns);
    EQ("from-file-dt", f.dt, f2.dt); EQ("from-file-K_shot", f.K_shot, f2.K_shot); EQ("from-file-integrator", f.integrator, f2.integrator);
    c.sig.d(w.dt); c.sig.i(w.integrator); c.sig.i(alg); c.sig.i(w.max_iterations);
}

SCENARIO_W(linesearch, 1)
{
    Rng& r = c.rng;
    LineSearchSettings s;
    s.armijo_parameter = r.uni(); s.adaptive = r.coin(); s.alpha_max = r.uni(); 
    Gen g(r, ident(r));
    LS l = randomLs(g, s);
    s.load(g.file.file(r, "ls"), r.coin(), g.ns);
    checkLs(c, s, l);
    LineSearchSettings v;
    v.alpha_0 = g.dbl(); v.n_alpha = r.coin() ? r.uni(-1, 2) : r.in(0, 1); v.alpha_max = g.dbl();
    EQ("valid", v.parametersOk(), v.alpha_0 > 0 && v.n_alpha > 0 && v.n_alpha < 1 && v.alpha_max > 0);
    c.sig.d(l.a0);
}

SCENARIO_W(mpc, 2)
{
    Rng& r = c.rng;
    Gen g(r, "mpc");
    mpc_settings s, w;
    s.mpc_mode = MPC_MODE(r.in(0, 3)); w.mpc_mode = s.mpc_mode;
    w.measureDelay_ = g.B("measureDelay"); w.stateForwardIntegration_ = g.B("stateForwardIntegration");
    w.stateForwardIntegration_dt_ = g.P("stateForwardIntegration_dt"); int it = g.I("stateForwardIntegratorType", 0, 8);
    w.fixedDelayUs_ = g.I("fixedDelayUs"); w.additionalDelayUs_ = g.I("additionalDelayUs"); w.minimumTimeHorizonMpc_ = g.P("timeHorizon");
    w.coldStart_ = g.B("coldStart"); w.postTruncation_ = g.B("postTruncation"); w.delayMeasurementMultiplier_ = g.P("delayMeasurementMultiplier");
    w.useExternalTiming_ = g.B("useExternalTiming");
    if (r.coin(0.7)) w.mpc_mode = MPC_MODE(g.I("mpc_mode", 0, 3));
    std::string fn = g.file.file(r, "mpc");
    loadMpcSettings(fn, s);
    EQ("measureDelay", s.measureDelay_, w.measureDelay_); EQ("stateForwardIntegration", s.stateForwardIntegration_, w.stateForwardIntegration_);
    EQ("stateForwardIntegration_dt", s.stateForwardIntegration_dt_, w.stateForwardIntegration_dt_); EQ("stateForwardIntegratorType", s.stateForwardIntegratorType_, it);
    EQ("fixedDelayUs", s.fixedDelayUs_, w.fixedDelayUs_); EQ("additionalDelayUs", s.additionalDelayUs_, w.additionalDelayUs_);
    EQ("minimumTimeHorizon", s.minimumTimeHorizonMpc_, w.minimumTimeHorizonMpc_); EQ("coldStart", s.coldStart_, w.coldStart_);
    EQ("postTruncation", s.postTruncation_, w.postTruncation_); EQ("delayMeasurementMultiplier", s.delayMeasurementMultiplier_, w.delayMeasurementMultiplier_);
    EQ("useExternalTiming", s.useExternalTiming_, w.useExternalTiming_); EQ("mpc_mode", s.mpc_mode, w.mpc_mode);
    s.print();
    c.sig.d(w.delayMeasurementMultiplier_); c.sig.i(w.fixedDelayUs_);
}

// fills in a solver block; verifies it afterwards
struct NlpBlock
{
    int type; bool gc, gj;
    int maxIt, verb; bool der, exact; double tol;
    IpoptSettings ip; SnoptSettings sn;
    void make(Gen& g0, const std::string& ns)
    {
        Rng& r = g0.r;
        Gen g(r, ns); std::swap(g.file, g0.file);
        type = g.I("SolverType", 0, 1); gc = g.B("UseGeneratedCostGradient"); gj = g.B("UseGeneratedConstraintJacobian");
        std::string p = type == 0 ? "ipopt." : "snopt.";
        if (type == 0)
        {
            ip.max_iter_ = g.I(p + "MaxIterations", 0, 5000); der = g.B(p + "CheckDerivatives"); exact = g.B(p + "ExactHessian"); ip.printLevel_ = g.I(p + "Verbosity", 0, 12); ip.tol_ = g.P(p + "OptimalityTolerance");
            auto on = [&] { return r.coin(); };
            if (on()) ip.jacobianApproximation_ = g.S(p + "jacobianApproximation", "exact");
            if (on()) ip.restoAcceptableTol_ = g.P(p + "restoAcceptableTol");
            if (on()) ip.constr_viol_tol_ = g.P(p + "constr_viol_tol");
            if (on()) ip.restoTol_ = g.P(p + "restoTol");
            if (on()) ip.acceptableTol_ = g.P(p + "acceptableTol");
            if (on()) ip.linear_scaling_on_demand_ = g.S(p + "linear_scaling_on_demand", "no");
            if (on()) ip.nlp_scaling_method_ = g.S(p + "nlp_scaling_method", "none");
            if (on()) ip.print_user_options_ = g.S(p + "print_user_options", "yes");
            if (on()) ip.print_frequency_iter_ = g.I(p + "print_frequency_iter", 1, 50);
            if (on()) ip.printInfoString_ = g.S(p + "printInfoString", "yes");
            if (on()) ip.derivativeTestTol_ = g.P(p + "derivativeTestTol");
            if (on()) ip.derivativeTestPerturbation_ = g.P(p + "derivativeTestPerturbation");
            if (on()) ip.point_perturbation_radius_ = g.P(p + "point_perturbation_radius");
            if (on()) ip.checkDerivativesForNaninf_ = g.S(p + "checkDerivativesForNaninf", "yes");
            if (on()) ip.derivativeTestPrintAll_ = g.S(p + "derivativeTestPrintAll", "yes");
            if (on()) ip.linear_solver_ = g.S(p + "linear_solver", "ma57");
            if (on()) ip.linearSystemScaling_ = g.S(p + "linearSystemScaling", "mc19");
        }
        else
        {
            sn.minor_iteration_limit_param_ = g.I(p + "MaxMinorIterations"); sn.major_iteration_limit_param_ = g.I(p + "MaxMajorIterations");
            sn.minor_print_level_param_ = g.I(p + "MinorPrintLevelVerbosity"); sn.major_print_level_param_ = g.I(p + "MajorPrintLevelVerbosity");
            sn.major_optimality_tolerance_param_ = g.P(p + "OptimalityTolerance");
        }
        std::swap(g.file, g0.file);
    }
    void check(Case& c, const NlpSolverSettings& s) const
    {
        EQ("solver", (int)s.solverType_, type); EQ("gen-cost", s.useGeneratedCostGradient_, gc); EQ("gen-jac", s.useGeneratedConstraintJacobian_, gj);
        EQ("nlp-valid", s.parametersOk(), true);
        if (type == 0)
        {
            const IpoptSettings& i = s.ipoptSettings_;
            EQ("max_iter", i.max_iter_, ip.max_iter_); EQ("printLevel", i.printLevel_, ip.printLevel_); EQ("tol", i.tol_, ip.tol_);
            SEQ("derivativeTest", i.derivativeTest_, std::string(der ? "first-order" : "none")); SEQ("hessian", i.hessian_approximation_, std::string(exact ? "exact" : "limited-memory"));
            SEQ("jacobianApproximation", i.jacobianApproximation_, ip.jacobianApproximation_);
            EQ("restoAcceptableTol", i.restoAcceptableTol_, ip.restoAcceptableTol_); EQ("constr_viol_tol", i.constr_viol_tol_, ip.constr_viol_tol_);
            EQ("restoTol", i.restoTol_, ip.restoTol_); EQ("acceptableTol", i.acceptableTol_, ip.acceptableTol_);
            SEQ("linear_scaling_on_demand", i.linear_scaling_on_demand_, ip.linear_scaling_on_demand_); SEQ("nlp_scaling_method", i.nlp_scaling_method_, ip.nlp_scaling_method_);
            SEQ("print_user_options", i.print_user_options_, ip.print_user_options_); EQ("print_frequency_iter", i.print_frequency_iter_, ip.print_frequency_iter_);
            SEQ("printInfoString", i.printInfoString_, ip.printInfoString_); EQ("derivativeTestTol", i.derivativeTestTol_, ip.derivativeTestTol_);
            EQ("derivativeTestPerturbation", i.derivativeTestPerturbation_, ip.derivativeTestPerturbation_); EQ("point_perturbation_radius", i.point_perturbation_radius_, ip.point_perturbation_radius_);
            SEQ("checkDerivativesForNaninf", i.checkDerivativesForNaninf_, ip.checkDerivativesForNaninf_); SEQ("derivativeTestPrintAll", i.derivativeTestPrintAll_, ip.derivativeTestPrintAll_);
            SEQ("linear_solver", i.linear_solver_, ip.linear_solver_); SEQ("linearSystemScaling", i.linearSystemScaling_, ip.linearSystemScaling_);
        }
        else
        {
            const SnoptSettings& i = s.snoptSettings_;
            EQ("minor_iteration", i.minor_iteration_limit_param_, sn.minor_iteration_limit_param_); EQ("major_iteration", i.major_iteration_limit_param_, sn.major_iteration_limit_param_);
            EQ("minor_print", i.minor_print_level_param_, sn.minor_print_level_param_); EQ("major_print", i.major_print_level_param_, sn.major_print_level_param_);
            EQ("major_optimality", i.major_optimality_tolerance_param_, sn.major_optimality_tolerance_param_);
        }
    }
};

static void makeCppad(Gen& g0, const std::string& ns, DerivativesCppadSettings& w)
{
    Gen g(g0.r, ns); std::swap(g.file, g0.file);
    w.multiThreading_ = g.B("MultiThreading"); w.createForwardZero_ = g.B("CreateForwardZero"); w.createForwardOne_ = g.B("CreateForwardOne");
    w.createReverseOne_ = g.B("CreateReverseOne"); w.createReverseTwo_ = g.B("CreateReverseTwo"); w.createJacobian_ = g.B("CreateJacobian");
    w.createSparseJacobian_ = g.B("CreateSparseJacobian"); w.createHessian_ = g.B("CreateHessian"); w.createSparseHessian_ = g.B("CreateSparseHessian");
    w.maxAssignements_ = g.I("MaxAssignements"); w.generateSourceCode_ = g.B("GenerateSourceCode"); w.useDynamicLibrary_ = g.B("UseDynamicLibrary");
    bool gcc = g.r.coin(); g.S("Compiler", gcc ? "GCC" : "CLANG"); w.compiler_ = gcc ? DerivativesCppadSettings::GCC : DerivativesCppadSettings::CLANG;
    std::swap(g.file, g0.file);
}
static void checkCppad(Case& c, const DerivativesCppadSettings& s, const DerivativesCppadSettings& w)
{
    EQ("MultiThreading", s.multiThreading_, w.multiThreading_); EQ("ForwardZero", s.createForwardZero_, w.createForwardZero_); EQ("ForwardOne", s.createForwardOne_, w.createForwardOne_);
    EQ("ReverseOne", s.createReverseOne_, w.createReverseOne_); EQ("ReverseTwo", s.createReverseTwo_, w.createReverseTwo_); EQ("Jacobian", s.createJacobian_, w.createJacobian_);
    EQ("SparseJacobian", s.createSparseJacobian_, w.createSparseJacobian_); EQ("Hessian", s.createHessian_, w.createHessian_); EQ("SparseHessian", s.createSparseHessian_, w.createSparseHessian_);
    EQ("MaxAssignements", s.maxAssignements_, w.maxAssignements_); EQ("GenerateSourceCode", s.generateSourceCode_, w.generateSourceCode_); EQ("UseDynamicLibrary", s.useDynamicLibrary_, w.useDynamicLibrary_);
    EQ("Compiler", s.compiler_, w.compiler_);
}

SCENARIO_W(nlp, 2)
{
    Rng& r = c.rng;
    Gen g(r, ident(r));
    NlpBlock n; n.make(g, g.ns);
    NlpSolverSettings s;
    s.load(g.file.file(r, "nlp"), r.coin(), g.ns);
    n.check(c, s);
    c.sig.i(n.type); c.sig.d(n.type ? n.sn.major_optimality_tolerance_param_ : n.ip.tol_);
    Gen h(r, ident(r)); DerivativesCppadSettings w, t;
    makeCppad(h, h.ns, w);
    t.load(h.file.file(r, "cppad"), r.coin(), h.ns);
    checkCppad(c, t, w);
}

SCENARIO_W(dms, 3)
{
    Rng& r = c.rng;
    std::string ns = ident(r);
    Gen g(r, ns);
    DmsSettings s;
    long N = g.I("N", 0, 1100), th = g.I("nThreads", 0, 40); double T = r.coin(0.9) ? g.P("T") : g.D("T");
    int sp = g.I("InterpolationType", 0, 1), ce = g.I("CostEvaluationType", 0, 1), ob = g.I("ObjectiveType", 0, 1), it = g.I("IntegrationType", 0, 2);
    double hm = g.P("h_min"), ds = r.coin(0.9) ? g.P("dt_sim") : g.D("dt_sim"), ae = g.P("AbsErrTol"), re = g.P("RelErrTol");
    NlpBlock n; n.make(g, ns + ".solver");
    DerivativesCppadSettings w; makeCppad(g, ns + ".cppad", w);
    s.load(g.file.file(r, "dms"), r.coin(), ns);
    EQ("N", s.N_, N); EQ("T", s.T_, T); EQ("nThreads", s.nThreads_, th); EQ("splineType", s.splineType_, sp); EQ("costEvaluationType", s.costEvaluationType_, ce);
    EQ("objectiveType", s.objectiveType_, ob); EQ("h_min", s.h_min_, hm); EQ("integrationType", s.integrationType_, it); EQ("dt_sim", s.dt_sim_, ds);
    EQ("absErrTol", s.absErrTol_, ae); EQ("relErrTol", s.relErrTol_, re);
    n.check(c, s.solverSettings_);
    checkCppad(c, s.cppadSettings_, w);
    EQ("valid", s.parametersOk(), N >= 1 && N <= 1000 && T > 0 && th >= 1 && th <= 32 && hm >= 0.01 && hm <= T && ds > 0 && ds <= 100 && ae > 1e-20 && ae <= 1 && re > 1e-20 && re <= 1);
    // validity, one field at a time around its limits
    DmsSettings v;
    bool ok = true;
    switch (r.in(0, 6))
    {
        case 0: { long q[] = {0, 1, 1000, 1001}; int k = r.in(0, 3); v.N_ = q[k]; ok = k == 1 || k == 2; break; }
        case 1: { double q[] = {-1, 0, 0.2, 50}; int k = r.in(0, 3); v.T_ = q[k]; ok = k >= 2; break; }
        case 2: { long q[] = {0, 1, 32, 33}; int k = r.in(0, 3); v.nThreads_ = q[k]; ok = k == 1 || k == 2; break; }
        case 3: { double q[] = {0.009, 0.01, 5, 5.01}; int k = r.in(0, 3); v.h_min_ = q[k]; ok = k == 1 || k == 2; break; }
        case 4: { double q[] = {-0.1, 0, 1e-6, 100, 100.1}; int k = r.in(0, 4); v.dt_sim_ = q[k]; ok = k == 2 || k == 3; break; }
        case 5: { double q[] = {0, 1e-21, 1e-12, 1, 1.1}; int k = r.in(0, 4); (r.coin() ? v.absErrTol_ : v.relErrTol_) = q[k]; ok = k == 2 || k == 3; break; }
        default: { int k = r.in(0, 2); v.solverSettings_.solverType_ = (NlpSolverType)k; ok = k < 2; break; }
    }
    EQ("valid-limits", v.parametersOk(), ok);
    c.sig.d(T); c.sig.i(N);
}

SCENARIO_W(filter, 2)
{
    Rng& r = c.rng;
    std::string ns = ident(r);
    {
        Gen g(r, ns);
        Eigen::MatrixXd C = g.M("C", 2, 3), Q = g.M("Q", 3, 3), R = g.M("R", 2, 2), F = g.M("dFdv", 3, 3);
        StateObserverSettings<2, 3> s;
        s.load(g.file.file(r, "obs"), r.coin(), ns);
        c.nearm("C", s.C, C, 0); c.nearm("Q", s.Q, Q, 0); c.nearm("R", s.R, R, 0); c.nearm("dFdv", s.dFdv, F, 0);
        EQ("observer-valid", s.parametersOk(), true);
    }
    {
        Gen g(r, ns);
        Eigen::MatrixXd x0 = g.M("x0", 3, 1);
        long it = 1000;
        if (r.coin(0.7)) it = g.I("maxDAREIterations");
        SteadyStateKalmanFilterSettings<3> s;
        s.load(g.file.file(r, "sskf"), r.coin(), ns);
        c.nearm("sskf-x0", s.x0, x0, 0); EQ("maxDAREIterations", s.maxDAREIterations, it);
    }
    {
        Gen g(r, ns);
        Eigen::MatrixXd x0 = g.M("x0", 3, 1), P0 = g.M("P0", 3, 3);
        ExtendedKalmanFilterSettings<3> s;
        s.load(g.file.file(r, "ekf"), r.coin(), ns);
        c.nearm("ekf-x0", s.x0, x0, 0); c.nearm("ekf-P0", s.P0, P0, 0);
    }
    {
        Gen g(r, ns);
        Eigen::MatrixXd x0 = g.M("x0", 3, 1), P0 = g.M("P0", 3, 3);
        double a = g.D("alpha"), b = g.D("beta"), k = g.D("kappa");
        UnscentedKalmanFilterSettings<3> s;
        s.load(g.file.file(r, "ukf"), r.coin(), ns);
        c.nearm("ukf-x0", s.x0, x0, 0); c.nearm("ukf-P0", s.P0, P0, 0);
        EQ("alpha", s.alpha, a); EQ("beta", s.beta, b); EQ("kappa", s.kappa, k);
        c.sig.d(a);
    }
}

SCENARIO_W(activations, 2)
{
    Rng& r = c.rng;
    std::string ns = ident(r);
    Gen g(r, ns);
    switch (r.in(0, 4))
    {
        case 0:
        {
            BarrierActivation b;
            bool up = r.coin(0.7), lo = r.coin(0.7), bad = r.coin(0.1), neg = r.coin(0.1);
            double a = neg ? -r.uni(0.1, 2) : r.uni(0, 3), l = r.uni(-3, 0), u = r.uni(0, 3);
            if (bad) std::swap(l, u);
            g.file.set(ns + ".alpha", g.d(a));
            if (up) g.file.set(ns + ".upper_bound", g.d(u));
            if (lo) g.file.set(ns + ".lower_bound", g.d(l));
            if (r.coin()) b = BarrierActivation(5, 4, 3);   // earlier contents do not survive
            bool threw = false;
            try { b.loadConfigFile(g.file.file(r, "act"), ns); } catch (std::exception&) { threw = true; }
            bool want = neg || (bad && up && lo);
            c.check("barrier-refused", threw == want, "threw " + str(threw) + " want " + str(want));
            if (threw) return;
            double x = r.uni(-4, 4), v = 0, d1 = 0, d2 = 0;
            if (up) { double e = std::exp(a * (x - u)); v += e; d1 += a * e; d2 += a * a * e; }
            if (lo) { double e = std::exp(a * (l - x)); v += e; d1 -= a * e; d2 += a * a * e; }
            c.near("barrier", b.computeActivation(x), v, 1e-12 * (1 + v)); c.near("barrier-d", b.firstOrderDerivative(x), d1, 1e-11 * (1 + v)); c.near("barrier-dd", b.secondOrderDerivative(x), d2, 1e-10 * (1 + v));
            c.sig.d(v);
            break;
        }
        case 1:
        {
            LinearActivation b; double on = g.D("t_on"), sl = g.D("slope"), st = g.D("startVal"), len = r.uni(0.1, 3), off = on + len;
            g.file.set(ns + ".t_off", g.d(off));
            b.loadConfigFile(g.file.file(r, "act"), ns);
            for (int i = 0; i < 5; ++i)
            {
                double t = i == 0 ? on : i == 1 ? off : on + r.uni(-1, 4);
                EQ("linear-active", b.isActive(t), t >= on && t < off);
                c.near("linear", b.computeActivation(t), st + sl * (t - on), 1e-12 * (1 + std::fabs(st) + std::fabs(sl) * (std::fabs(t - on) + 1)));
            }
            c.sig.d(sl);
            break;
        }
        case 2:
        {
            PeriodicActivation b; double P = r.uni(0.1, 2), fr = r.uni(0, 1.2), off = r.uni(0, P), po = r.uni(-1, 1), te = po + r.uni(0, 6);
            g.file.set(ns + ".active_percentage", g.d(fr)); g.file.set(ns + ".period", g.d(P)); g.file.set(ns + ".activation_offset", g.d(off)); g.file.set(ns + ".period_offset", g.d(po)); g.file.set(ns + ".t_end", g.d(te));
            bool threw = false;
            try { b.loadConfigFile(g.file.file(r, "act"), ns, r.coin()); } catch (std::exception&) { threw = true; }
            c.check("periodic-refused", threw == (off + fr * P > P));
            if (threw) return;
            for (int i = 0; i < 8; ++i)
            {
                double t = po + r.uni(-1, 8), ph = std::fmod(t - po, P);
                if (std::fabs(ph - off) < 1e-9 || std::fabs(ph - off - fr * P) < 1e-9 || std::fabs(t - te) < 1e-9) continue;
                EQ("periodic-active", b.isActive(t), t >= po && t < te && ph >= off && ph < off + fr * P);
            }
            c.sig.d(P);
            break;
        }
        case 3:
        {
            SingleActivation b; double on = g.D("t_on"), off = on + r.uni(0.1, 3);
            g.file.set(ns + ".t_off", g.d(off));
            b.loadConfigFile(g.file.file(r, "act"), ns);
            for (int i = 0; i < 5; ++i)
            {
                double t = i == 0 ? on : i == 1 ? off : on + r.uni(-1, 4);
                EQ("single-active", b.isActive(t), t >= on && t < off);
            }
            EQ("single", b.computeActivation(on), 1);
            c.sig.d(on);
            break;
        }
        default:
        {
            RBFGaussActivation b; double mu = g.D("mu"), si = r.uni(0.05, 3);
            g.file.set(ns + ".sigma", g.d(si));
            b.loadConfigFile(g.file.file(r, "act"), ns);
            double t = mu + r.uni(-4, 4) * si, v = std::exp(-(t - mu) * (t - mu) / (2 * si * si)) / std::sqrt(2 * M_PI) / si;
            c.near("rbf", b.computeActivation(t), v, 1e-9 * (1 + v));
            EQ("rbf-active", b.isActive(t), true);
            c.sig.d(v);
        }
    }
}
MON_MAIN
