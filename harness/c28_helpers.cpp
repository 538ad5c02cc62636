// C28: noise, activations, linear solvers, geometry
#include "mon.hpp"
#include <ct/core/core.h>
using namespace ct::core;
using mon::Case;

SCENARIO_W(quantization, 3)
{
    mon::Rng& r = c.rng;
    double q = r.coin(0.15) ? r.uni(1e-11, 1e-10) : r.uni(0.01, 2), bias = r.coin() ? 0 : r.uni(-1, 1);
    bool fl = r.coin();
    QuantizationNoise n(bias, q, fl ? QuantizationNoise::FLOOR : QuantizationNoise::ROUND);
    c.cfg = "q " + mon::str(q) + " floor " + mon::str(fl);
    const int D = 5;
    double rest[D] = {0};
    auto one = [&](double in, double out, int i) {
        double lev = (out - bias) / q;
        double scale = std::max(1.0, std::abs(lev));
        c.check("on-grid", std::abs(lev - std::round(lev)) < 1e-6 * scale, "output is not a grid level: " + mon::full(lev));
        double nr = rest[i] + in - (out - bias);
        double sl = 1e-9 + 1e-6 * q + 1e-13 * std::abs(in) * 100;
        if (fl) c.check("rest-floor", nr >= -sl && nr <= q + sl, "residual " + mon::full(nr) + " interval " + mon::full(q));
        else c.check("rest-round", std::abs(nr) <= q / 2 + sl, "residual " + mon::full(nr) + " interval " + mon::full(q));
        rest[i] = nr;
        c.sig.d(out); c.nontrivial = true;
    };
    for (int k = 0; k < 40; ++k)
    {
        int op = r.in(0, 9);
        if (op == 0) { n.reset(); for (auto& x : rest) x = 0; }
        else if (op <= 3)
        {
            Eigen::Matrix<double, 3, 1> v = r.mat<3, 1>(-5, 5), w = v;
            n.noisify<3>(w);
            for (int i = 0; i < 3; ++i) one(v(i), w(i), i);
        }
        else
        {
            int i = r.coin() ? 0 : r.in(0, D - 1);
            double v = r.uni(-5, 5), w = v;
            if (i == 0 && r.coin()) n.noisify(w); else n.noisify(w, i);
            one(v, w, i);
        }
    }
}
SCENARIO(gaussian)
{
    mon::Rng& r = c.rng;
    double mu = r.uni(-5, 5), sd = r.uni(0.1, 4);
    GaussianNoise g(mu, sd);
    const int n = 4000;
    double s = 0, s2 = 0;
    for (int i = 0; i < n; ++i)
    {
        double x;
        int k = r.in(0, 3);
        if (k == 0) x = g();
        else if (k == 1) x = g.gen<3>()(r.in(0, 2));
        else if (k == 2) { double b = r.uni(-2, 2), v = b; g.noisify(v); x = v - b; }
        else { Eigen::Matrix<double, 4, 1> b = r.mat<4, 1>(), v = b; g.noisify<4>(v); x = (v - b)(r.in(0, 3)); }
        s += x; s2 += (x - mu) * (x - mu);
    }
    // 8 sigma bands: false alarm probability below 1e-14
    c.check("mean", std::abs(s / n - mu) < 8 * sd / std::sqrt(n), "mean " + mon::full(s / n) + " want " + mon::full(mu));
    c.check("variance", std::abs(s2 / n - sd * sd) < 8 * sd * sd * std::sqrt(2.0 / n) * 1.2, "variance " + mon::full(s2 / n) + " want " + mon::full(sd * sd));
    c.nontrivial = true; c.sig.d(s);
    GaussianNoise d;
    s = s2 = 0;
    for (int i = 0; i < n; ++i) { double x = d(); s += x; s2 += x * x; }
    c.check("default-mean", std::abs(s / n) < 8 / std::sqrt(n)); c.check("default-variance", std::abs(s2 / n - 1) < 8 * std::sqrt(2.0 / n) * 1.2);
}
SCENARIO(uniform)
{
    mon::Rng& r = c.rng;
    double mu = r.uni(-5, 5), w = r.uni(0.1, 4);
    UniformNoise g(mu, w);
    const int n = 2000;
    double s = 0, s2 = 0;
    for (int i = 0; i < n; ++i)
    {
        double x;
        int k = r.in(0, 3);
        double slack = 0;
        if (k == 0) x = g();
        else if (k == 1) x = g.gen<3>()(r.in(0, 2));
        else if (k == 2) { double b = r.uni(-2, 2), v = b; g.noisify(v); x = v - b; slack = 1e-12; }
        else { Eigen::Matrix<double, 4, 1> b = r.mat<4, 1>(), v = b; g.noisify<4>(v); x = (v - b)(r.in(0, 3)); slack = 1e-12; }
        c.check("range", x >= mu - w - slack && x <= mu + w + slack, mon::full(x));
        s += x; s2 += (x - mu) * (x - mu);
    }
    double var = w * w / 3;
    c.check("mean", std::abs(s / n - mu) < 8 * std::sqrt(var / n), "mean " + mon::full(s / n));
    c.check("variance", std::abs(s2 / n - var) < 8 * var * std::sqrt(0.8 / n) * 1.2, "variance");
    c.nontrivial = true; c.sig.d(s);
}

static void evalAct(Case& c, const std::string& nm, ActivationBase& a, std::function<bool(double, bool&)> act, std::function<double(double)> val, double lo, double hi)
{
    mon::Rng& r = c.rng;
    for (int i = 0; i < 30; ++i)
    {
        double t = r.uni(lo, hi);
        bool edge = false;
        bool w = act(t, edge);
        if (!edge) c.check(nm + "-active", a.isActive(t) == w, "isActive(" + mon::full(t) + ") want " + mon::str(w));
        if (w && !edge) c.near(nm + "-value", a.computeActivation(t), val(t), 1e-10);
    }
}
static std::string info(std::initializer_list<std::pair<const char*, double>> kv, const char* name)
{
    std::string s = std::string(name) + "\n{\n";
    for (auto& p : kv) s += std::string(p.first) + " " + mon::full(p.second) + "\n";
    return s + "}\n";
}
SCENARIO_W(act_window, 2)
{
    mon::Rng& r = c.rng;
    double a = r.uni(-2, 2), b = a + r.uni(0.1, 3), sl = r.uni(-2, 2), v0 = r.uni(-2, 2);
    SingleActivation s0(a, b), s(s0), sf;
    LinearActivation l0(a, b, sl, v0), l(l0), lf;
    std::string f = mon::writefile("act", info({{"t_on", a}, {"t_off", b}, {"slope", sl}, {"startVal", v0}}, "act"));
    sf.loadConfigFile(f, "act"); lf.loadConfigFile(f, "act");
    auto win = [=](double t, bool& e) { e = std::abs(t - a) < 1e-9 || std::abs(t - b) < 1e-9; return t >= a && t < b; };
    for (auto* p : {&s0, &s, &sf}) evalAct(c, "single", *p, win, [](double) { return 1.0; }, a - 1, b + 1);
    for (auto* p : {&l0, &l, &lf}) evalAct(c, "linear", *p, win, [=](double t) { return v0 + sl * (t - a); }, a - 1, b + 1);
    c.check("single-on-edge", s0.isActive(a) && !s0.isActive(b)); c.check("linear-on-edge", l0.isActive(a) && !l0.isActive(b));
    unlink(f.c_str());
}
SCENARIO_W(act_periodic, 2)
{
    mon::Rng& r = c.rng;
    double P = r.uni(0.2, 3), frac = r.uni(0.05, 0.6), off = r.uni(0, (1 - frac) * P * 0.99), po = r.uni(-1, 2), te = po + r.uni(0.5, 10);
    c.cfg = "period " + mon::str(P) + " frac " + mon::str(frac) + " off " + mon::str(off) + " poff " + mon::str(po);
    PeriodicActivation p0(frac, P, off, po), p1(p0), pf;
    std::string f = mon::writefile("act", info({{"active_percentage", frac}, {"period", P}, {"activation_offset", off}, {"period_offset", po}, {"t_end", te}}, "act"));
    pf.loadConfigFile(f, "act");
    auto act = [=](double end) { return [=](double t, bool& e) {
        double x = t - po;
        double ph = x - P * std::floor(x / P);
        e = std::abs(x) < 1e-9 || std::abs(t - end) < 1e-9 || std::abs(ph - off) < 1e-7 || std::abs(ph - off - frac * P) < 1e-7 || ph < 1e-7 || P - ph < 1e-7;
        return x >= 0 && t < end && ph >= off && ph < off + frac * P; }; };
    evalAct(c, "periodic", p0, act(1e300), [](double) { return 1.0; }, po - 1, po + 12);
    evalAct(c, "periodic-copy", p1, act(1e300), [](double) { return 1.0; }, po - 1, po + 12);
    evalAct(c, "periodic-file", pf, act(te), [](double) { return 1.0; }, po - 1, po + 12);
    std::string g = mon::writefile("act2", info({{"active_percentage", 0.9}, {"period", P}, {"activation_offset", 0.2 * P}, {"period_offset", po}, {"t_end", te}}, "act"));
    bool threw = false;
    PeriodicActivation pg;
    try { pg.loadConfigFile(g, "act"); } catch (std::exception&) { threw = true; }
    c.check("periodic-inconsistent-refused", threw);
    unlink(f.c_str()); unlink(g.c_str());
}
SCENARIO(act_rbf)
{
    mon::Rng& r = c.rng;
    double mu = r.uni(-2, 2), sg = r.uni(0.1, 2);
    RBFGaussActivation a(mu, sg), b(a), f;
    std::string fn = mon::writefile("act", info({{"mu", mu}, {"sigma", sg}}, "rbf"));
    f.loadConfigFile(fn, "rbf");
    for (auto* p : {&a, &b, &f})
        evalAct(c, "rbf", *p, [](double, bool&) { return true; }, [=](double t) { return std::exp(-(t - mu) * (t - mu) / (2 * sg * sg)) / (sg * std::sqrt(2 * M_PI)); }, mu - 4, mu + 4);
    unlink(fn.c_str());
}
SCENARIO_W(act_barrier, 2)
{
    mon::Rng& r = c.rng;
    double ub = r.uni(-1, 3), lb = ub - r.uni(0.1, 3), al = r.uni(0.1, 5);
    int kind = r.in(0, 4);
    bool U = true, L = true;
    BarrierActivation a(ub, lb, al), f;
    std::unique_ptr<BarrierActivation> p(new BarrierActivation(ub, lb, al));
    if (kind == 1) { p->setLowerBoundOnly(lb, al); U = false; }
    if (kind == 2) { p->setUpperBoundOnly(ub, al); L = false; }
    if (kind == 3)
    {
        U = r.coin(0.7); L = r.coin(0.7);
        std::string s = "b\n{\nalpha " + mon::full(al) + "\n" + (U ? "upper_bound " + mon::full(ub) + "\n" : "") + (L ? "lower_bound " + mon::full(lb) + "\n" : "") + "}\n";
        std::string fn = mon::writefile("bar", s);
        if (r.coin()) p.reset(new BarrierActivation());
        p->loadConfigFile(fn, "b");
        unlink(fn.c_str());
    }
    if (kind == 4) { p.reset(new BarrierActivation()); U = L = false; }
    c.cfg = "kind " + mon::str(kind) + " U " + mon::str(U) + " L " + mon::str(L);
    for (int i = 0; i < 20; ++i)
    {
        double x = r.coin(0.1) ? (U && L ? r.uni(-20, 20) : U ? -r.uni(300, 3000) : r.uni(300, 3000)) : r.uni(lb - 2, ub + 2);
        double eu = U ? std::exp(al * (x - ub)) : 0, el = L ? std::exp(al * (lb - x)) : 0;
        c.near("value", p->computeActivation(x), eu + el, 1e-11);
        c.near("first", p->firstOrderDerivative(x), (U ? al * eu : 0) - (L ? al * el : 0), 1e-11);
        c.near("second", p->secondOrderDerivative(x), (U ? al * al * eu : 0) + (L ? al * al * el : 0), 1e-11);
    }
    std::string bad = mon::writefile("bar", "b\n{\nalpha 1\nupper_bound 0\nlower_bound 1\n}\nn\n{\nalpha -1\nupper_bound 2\nlower_bound 1\n}\n");
    for (const char* nm : {"b", "n"}) { bool threw = false; try { BarrierActivation q; q.loadConfigFile(bad, nm); } catch (std::exception&) { threw = true; } c.check(std::string("refuses-") + nm, threw); }
    unlink(bad.c_str());
}
SCENARIO_W(solvers, 2)
{
    mon::Rng& r = c.rng;
    int n = r.in(1, 9), m = r.in(1, 4);
    Eigen::MatrixXd A = r.dmat(n, n) + (n + 1.0) * Eigen::MatrixXd::Identity(n, n), B = r.dmat(n, m, -5, 5);
    Eigen::MatrixXd X = LUsolve<double>(A, B);
    c.nearm("lu", A * X, B, 1e-9);
    Eigen::MatrixXd S = r.spd(n, 0.2, 5);
    Eigen::MatrixXd Y = LDLTsolve<double>(S, B);
    c.nearm("ldlt", S * Y, B, 1e-8);
    if (r.coin()) { Eigen::MatrixXd Z = LDLTsolve<double>(-S, B); c.nearm("ldlt-negative", -S * Z, B, 1e-8); }
    Eigen::MatrixXd I = LUsolve<double>(A, Eigen::MatrixXd::Identity(n, n));
    c.nearm("inverse", I * A, Eigen::MatrixXd::Identity(n, n), 1e-9);
}
SCENARIO(geometry)
{
    mon::Rng& r = c.rng;
    double a = r.uni(0.2, 3), b = -r.uni(0.2, 3), cc = r.uni(0.2, 3), d = r.uni(-4, 4);
    Plane p(a, b, cc, d), p2, p3(Eigen::Vector4d(a, b, cc, d));
    p2.set(a, b, cc, d);
    for (Plane* q : {&p, &p2, &p3})
    {
        double x = r.uni(-3, 3), y = r.uni(-3, 3), z = r.uni(-3, 3);
        c.near("solveX", a * q->solveX(y, z) + b * y + cc * z, d, 1e-10);
        c.near("solveY", a * x + b * q->solveY(x, z) + cc * z, d, 1e-10);
        c.near("solveZ", a * x + b * y + cc * q->solveZ(x, y), d, 1e-10);
        c.check("coeff", q->a() == a && q->b() == b && q->c() == cc && q->d() == d && q->getCoefficient(1) == b && q->getCoefficient(3) == d);
        bool threw = false; try { q->getCoefficient(4); } catch (std::exception&) { threw = true; } c.check("coeff-range", threw);
    }
    // points on a plane not through the origin are recovered up to scale
    double dd = r.uni(0.5, 3) * (r.coin() ? 1 : -1);
    PlaneEstimator::point_measurements_t pts;
    int n = r.in(3, 20);
    for (int i = 0; i < n; ++i) { double x = i == 0 ? 0 : i == 1 ? 2 : i == 2 ? -1 : r.uni(-3, 3), y = i == 0 ? 0 : i == 1 ? 1 : i == 2 ? 2 : r.uni(-3, 3); pts.push_back(Eigen::Vector3d(x, y, (dd - a * x - b * y) / cc)); }
    Plane e = PlaneEstimator().estimate(pts);
    for (auto& q : pts) c.near("estimate-fit", e.a() * q(0) + e.b() * q(1) + e.c() * q(2), e.d(), 1e-8);
    c.nearm("estimate-coefficients", Eigen::Vector3d(e.a(), e.b(), e.c()) / e.d(), Eigen::Vector3d(a, b, cc) / dd, 1e-8);
    bool threw = false; pts.resize(2); try { PlaneEstimator().estimate(pts); } catch (std::exception&) { threw = true; } c.check("estimate-two-points-refused", threw);
    // ellipsoid
    Eigen::Vector3d x0 = r.mat<3, 1>(), ax = r.mat<3, 1>(0.3, 3), dir = r.mat<3, 1>().normalized();
    Eigen::Quaterniond qt(Eigen::AngleAxisd(r.uni(-3, 3), r.mat<3, 1>().normalized()));
    Eigen::Matrix3d A = ax.asDiagonal(), S = qt.toRotationMatrix();
    Ellipsoid el(x0, A, S), el2(x0, A, Eigen::Matrix3d::Identity());
    el2.setFromQuaterion(qt);
    double rr = r.uni(0.1, 2.5);
    // a point with S^T (x-x0) = A^{-1} * rr*dir has level rr^2 - 1
    Eigen::Vector3d x = x0 + S * (ax.cwiseInverse().cwiseProduct(rr * dir));
    c.near("ellipsoid", el.insideEllipsoid(x), rr * rr - 1, 1e-9);
    c.near("ellipsoid-quat", el2.insideEllipsoid(x), rr * rr - 1, 1e-9);
    Eigen::Matrix3d Ag = A + 0.2 * r.mat<3, 3>();
    Ellipsoid eg(x0, Ag, S);
    double rg = (Ag * (S.transpose() * (x - x0))).norm();
    c.near("ellipsoid-general", eg.insideEllipsoid(x), rg * rg - 1, 1e-9);
    c.near("ellipsoid-centre", el.insideEllipsoid(x0), -1, 1e-12);
}
SCENARIO(timer)
{
    mon::Rng& r = c.rng;
    ExternallyDrivenTimer t;
    c.near("initial", t.getElapsedTime(), 0, 0);
    double a = r.uni(-5, 5), b = r.uni(-5, 5);
    t.start(a); t.stop(b);
    c.near("elapsed", t.getElapsedTime(), b - a, 1e-13);
    t.reset(); c.near("reset", t.getElapsedTime(), 0, 0);
    Timer w; w.start(); w.stop();
    c.check("wall", w.getElapsedTime() >= 0 && w.getElapsedTime() < 100);
    w.reset(); c.near("wall-reset", w.getElapsedTime(), 0, 0);
}
MON_MAIN
