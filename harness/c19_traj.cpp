// C19: trajectories, arrays, interpolation - model-based monitor over random edit/query histories
#include "mon.hpp"
#include <ct/core/core.h>
using namespace ct::core;
using mon::Case;

// ---- adapters: T <-> VectorXd
template <class T> struct Ad;
template <> struct Ad<double>
{
    static double rnd(mon::Rng& r) { return r.uni(-5, 5); }
    static Eigen::VectorXd v(const double& d) { return Eigen::VectorXd::Constant(1, d); }
};
template <size_t N> struct Ad<StateVector<N>>
{
    static StateVector<N> rnd(mon::Rng& r) { StateVector<N> s; s = r.mat<N, 1>(-5, 5); return s; }
    static Eigen::VectorXd v(const StateVector<N>& d) { return d; }
};
template <size_t N, size_t M> struct Ad<FeedbackMatrix<N, M>>
{
    static FeedbackMatrix<N, M> rnd(mon::Rng& r) { FeedbackMatrix<N, M> s; s = r.mat<M, N>(-5, 5); return s; }
    static Eigen::VectorXd v(const FeedbackMatrix<N, M>& d) { return Eigen::Map<const Eigen::VectorXd>(d.data(), d.size()); }
};

struct Model
{
    std::vector<double> t;
    std::vector<Eigen::VectorXd> d;
    InterpolationType type = ZOH;
    Eigen::VectorXd eval(double q, bool& boundary) const
    {
        size_t n = t.size();
        boundary = false;
        for (auto x : t) if (std::abs(x - q) < 1e-12 * (1 + std::abs(q)) && x != q) boundary = true;
        if (n == 1 || q < t[0]) return d[0];
        size_t i = 0;
        while (i + 1 < n && t[i + 1] <= q) ++i;
        if (i == n - 1) return d[n - 1];
        if (type == ZOH) return d[i];
        double a = (q - t[i]) / (t[i + 1] - t[i]);
        return (1 - a) * d[i] + a * d[i + 1];
    }
    int index(double q) const
    {
        int i = 0;
        while (i + 1 < (int)t.size() && t[i + 1] <= q) ++i;
        return i;
    }
};

template <class T>
struct Pair
{
    typedef DiscreteTrajectoryBase<T> Tr;
    Tr tr;
    Model m;
};

static double step(mon::Rng& r) { return r.coin(0.2) ? r.uni(1e-6, 1e-3) : r.uni(0.01, 1.0); }

template <class T>
void compare(Case& c, const Pair<T>& p)
{
    if (!c.check("size", p.tr.size() == p.m.t.size() && p.tr.getTimeArray().size() == p.m.t.size(), "number of samples differs from the edit history")) return;
    for (size_t i = 0; i < p.m.t.size(); ++i)
    {
        c.near("time-sample", p.tr.getTimeFromIndex(i), p.m.t[i], 1e-12);
        c.check("data-sample", Ad<T>::v(p.tr[i]) == p.m.d[i], "stored sample " + std::to_string(i) + " changed");
        p.m.t[i] == p.m.t[i];
    }
    if (!p.m.t.empty())
    {
        c.near("startTime", p.tr.startTime(), p.m.t.front(), 1e-12);
        c.near("finalTime", p.tr.finalTime(), p.m.t.back(), 1e-12);
        c.near("duration", p.tr.duration(), p.m.t.back() - p.m.t.front(), 1e-11);
        c.check("front", Ad<T>::v(p.tr.front()) == p.m.d.front());
        c.check("back", Ad<T>::v(p.tr.back()) == p.m.d.back());
    }
}
// re-read the exact stored times (the toolbox may round differently when shifting): the interpolant is judged against the samples it holds
template <class T>
void resync(Pair<T>& p) { for (size_t i = 0; i < p.m.t.size() && i < p.tr.getTimeArray().size(); ++i) p.m.t[i] = p.tr.getTimeFromIndex(i); }

template <class T>
void history(Case& c)
{
    typedef DiscreteTrajectoryBase<T> Tr;
    mon::Rng& r = c.rng;
    std::vector<Pair<T>> ps(2);
    ps[0].m.type = ZOH;
    int ops = r.in(20, c.thorough ? 120 : 60);
    std::string tr;
    for (int o = 0; o < ops; ++o)
    {
        int w = r.in(0, 1);
        Pair<T>& p = ps[w];
        Pair<T>& q = ps[1 - w];
        int op = r.in(0, 24);
        tr += char('a' + op);
        tr += char('0' + w);
        c.cfg = "ops " + tr;
        size_t n = p.m.t.size();
        switch (op)
        {
            case 0: case 1: case 2: case 3: case 4:
            {
                T x = Ad<T>::rnd(r);
                double dt = step(r);
                bool abs = n == 0 ? true : r.coin();
                double tt = n == 0 ? r.uni(-3, 3) : p.m.t.back() + dt;
                p.tr.push_back(x, abs ? tt : dt, abs);
                p.m.t.push_back(abs ? tt : p.m.t.back() + dt);
                p.m.d.push_back(Ad<T>::v(x));
                break;
            }
            case 5: if (n) { p.tr.pop_back(); p.m.t.pop_back(); p.m.d.pop_back(); } break;
            case 6:
            {
                size_t k = r.in(0, (int)std::min<size_t>(n, 3));
                double s = r.coin() ? 0 : r.uni(-1, 1);
                p.tr.eraseFront(k, s);
                p.m.t.erase(p.m.t.begin(), p.m.t.begin() + k);
                p.m.d.erase(p.m.d.begin(), p.m.d.begin() + k);
                for (auto& x : p.m.t) x += -s;
                break;
            }
            case 7:
            {
                double s = r.uni(-2, 2);
                p.tr.shiftTime(s);
                for (auto& x : p.m.t) x -= s;
                break;
            }
            case 8: p.m.type = r.coin() ? ZOH : LIN; p.tr.setInterpolationType(p.m.type); break;
            case 9: if (r.coin(0.3)) { p.tr.clear(); p.m.t.clear(); p.m.d.clear(); } break;
            case 10: p.tr.swapData(q.tr); std::swap(p.m.t, q.m.t); std::swap(p.m.d, q.m.d); break;
            case 11: p.tr = q.tr; p.m = q.m; break;
            case 12:
            {
                Tr cp(p.tr);
                Pair<T> pc{cp, p.m};
                compare(c, pc);
                if (n) { for (int k = 0; k < 3; ++k) { double x = r.uni(p.m.t.front() - 0.5, p.m.t.back() + 0.5); bool b; auto e = p.m.eval(x, b); if (!b) c.nearm("copy-eval", Ad<T>::v(cp.eval(x)), e, 1e-9); } }
                cp.clear();
                break;
            }
            case 13:
                if (n)
                {
                    int a = r.in(0, n - 1), b = r.in(a, n - 1);
                    Tr sub(p.tr, a, b);
                    Pair<T> ps2{sub, Model()};
                    ps2.m.t.assign(p.m.t.begin() + a, p.m.t.begin() + b + 1);
                    ps2.m.d.assign(p.m.d.begin() + a, p.m.d.begin() + b + 1);
                    ps2.m.type = p.m.type;
                    compare(c, ps2);
                    double x = r.uni(ps2.m.t.front() - 0.2, ps2.m.t.back() + 0.2); bool bd; auto e = ps2.m.eval(x, bd);
                    if (!bd) c.nearm("sub-eval", Ad<T>::v(sub.eval(x)), e, 1e-9);
                }
                break;
            case 14:
            {
                // uniform grid constructor
                int k = r.in(1, 12);
                double dt = r.uni(0.01, 0.5), t0 = r.uni(-2, 2);
                DiscreteArray<T> da;
                Model m;
                for (int i = 0; i < k; ++i) { T x = Ad<T>::rnd(r); da.push_back(x); m.d.push_back(Ad<T>::v(x)); m.t.push_back(t0 + i * dt); }
                m.type = r.coin() ? ZOH : LIN;
                if (r.coin()) p.tr = Tr(da, dt, t0, m.type);
                else p.tr = Tr(ct::core::TimeArray(dt, k, t0), da, m.type);
                p.m = m;
                break;
            }
            case 15:
                if (n)
                {
                    // replace data / times, same length
                    DiscreteArray<T> da; ct::core::TimeArray ta;
                    double t = r.uni(-1, 1);
                    for (size_t i = 0; i < n; ++i) { T x = Ad<T>::rnd(r); da.push_back(x); p.m.d[i] = Ad<T>::v(x); ta.push_back(t); p.m.t[i] = t; t += step(r); }
                    p.tr.setData(da); p.tr.setTime(ta);
                }
                break;
            default:
                // queries: jump anywhere, exact sample times, just around them
                if (n)
                {
                    int k = r.in(1, 6);
                    for (int i = 0; i < k; ++i)
                    {
                        double x;
                        int kind = r.in(0, 4);
                        if (kind == 0) x = p.tr.getTimeFromIndex(r.in(0, n - 1));
                        else if (kind == 1) x = p.m.t.front() - r.uni(0, 3);
                        else if (kind == 2) x = p.m.t.back() + r.uni(0, 3);
                        else x = r.uni(p.m.t.front(), p.m.t.back());
                        bool b;
                        Eigen::VectorXd e = p.m.eval(x, b);
                        if (b) continue;
                        c.nearm(p.m.type == ZOH ? "eval-zoh" : "eval-lin", Ad<T>::v(p.tr.eval(x)), e, 1e-8);
                        if (r.coin(0.3)) c.check("getIndexFromTime", (int)p.tr.getIndexFromTime(x) == p.m.index(x), "index of time");
                    }
                }
                else
                {
                    bool threw = false;
                    try { p.tr.eval(0.3); } catch (std::exception&) { threw = true; }
                    c.check("eval-empty", threw, "evaluating an empty trajectory must be refused");
                    if (r.coin(0.3)) { try { p.tr.getIndexFromTime(0.1); } catch (std::exception&) {} }
                }
        }
        compare(c, ps[0]);
        compare(c, ps[1]);
        resync(ps[0]); resync(ps[1]);
    }
    c.sig.i(ops);
    for (auto ch : tr) c.sig.i(ch);
}
SCENARIO_W(traj_state, 3) { history<StateVector<3>>(c); }
SCENARIO_W(traj_scalar, 2) { history<double>(c); }
SCENARIO_W(traj_feedback, 1) { history<FeedbackMatrix<2, 3>>(c); }

template <class T>
void arrays(Case& c)
{
    typedef DiscreteArray<T> A;
    mon::Rng& r = c.rng;
    typedef std::vector<Eigen::VectorXd> M;
    A a[3];
    M m[3];
    auto fill = [&](int w, int n) { a[w].clear(); m[w].clear(); for (int i = 0; i < n; ++i) { T x = Ad<T>::rnd(r); a[w].push_back(x); m[w].push_back(Ad<T>::v(x)); } };
    int n = r.in(0, 9);
    for (int w = 0; w < 3; ++w) fill(w, r.coin(0.8) ? n : r.in(0, 9));
    auto cmp = [&](const std::string& nm, const A& x, const M& y, double tol = 0) {
        if (!c.check(nm + "-size", x.size() == y.size(), "size")) return;
        for (size_t i = 0; i < y.size(); ++i) c.nearm(nm, Ad<T>::v(x[i]), y[i], tol);
    };
    int ops = r.in(10, 40);
    std::string tr;
    for (int o = 0; o < ops; ++o)
    {
        int w = r.in(0, 2), v = r.in(0, 2), op = r.in(0, 13);
        tr += char('a' + op); tr += char('0' + w); tr += char('0' + v);
        c.cfg = "ops " + tr;
        bool same = m[w].size() == m[v].size();
        try
        {
            bool threw = false;
            switch (op)
            {
                case 0: case 1:
                {
                    A res;
                    try { res = op == 0 ? a[w] + a[v] : a[w] - a[v]; } catch (std::exception&) { threw = true; }
                    c.check("size-mismatch-refused", threw == !same, "binary operation on arrays of sizes " + mon::str(m[w].size()) + "," + mon::str(m[v].size()));
                    if (same && !threw) { M e; for (size_t i = 0; i < m[w].size(); ++i) e.push_back(op == 0 ? Eigen::VectorXd(m[w][i] + m[v][i]) : Eigen::VectorXd(m[w][i] - m[v][i])); cmp(op == 0 ? "plus" : "minus", res, e, 1e-14); }
                    break;
                }
                case 2: case 3:
                {
                    try { if (op == 2) a[w] += a[v]; else a[w] -= a[v]; } catch (std::exception&) { threw = true; }
                    c.check("size-mismatch-refused", threw == !same, "compound operation on arrays of different sizes");
                    if (same) { M e = m[v]; for (size_t i = 0; i < m[w].size(); ++i) if (op == 2) m[w][i] += e[i]; else m[w][i] -= e[i]; }
                    break;
                }
                case 4: case 5:
                {
                    double s = r.coin() ? r.uni(0.5, 2) : -r.uni(0.5, 2);
                    A res = op == 4 ? a[w] * s : a[w] / s;
                    M e; for (auto& x : m[w]) e.push_back(op == 4 ? Eigen::VectorXd(x * s) : Eigen::VectorXd(x / s));
                    cmp(op == 4 ? "times" : "divide", res, e, 1e-14);
                    break;
                }
                case 6: { size_t k = r.in(0, m[w].size()); a[w].eraseFront(k); m[w].erase(m[w].begin(), m[w].begin() + k); break; }
                case 7: { T x = Ad<T>::rnd(r); a[w].setConstant(x); for (auto& y : m[w]) y = Ad<T>::v(x); break; }
                case 8: { T x = Ad<T>::rnd(r); a[w].addOffset(x); for (auto& y : m[w]) y += Ad<T>::v(x); break; }
                case 9: if (w != v) { a[w].swap(a[v]); m[w].swap(m[v]); } break;
                case 10: a[w] = a[v]; m[w] = M(m[v]); break;
                case 11: { A cp(a[w]); cmp("copy", cp, m[w]); A cp2(std::move(cp)); cmp("move", cp2, m[w]); if (cp2.size()) { cp2.addOffset(Ad<T>::rnd(r)); cp2.pop_back(); } break; }
                case 12: { T x = Ad<T>::rnd(r); int k = r.in(0, 6); A cp(k, x); M e(k, Ad<T>::v(x)); cmp("ctor-n-value", cp, e); T y = Ad<T>::rnd(r); cp.resize(k + 2, y); e.resize(k + 2, Ad<T>::v(y)); cmp("resize", cp, e); break; }
                case 13: { int k1 = r.in(0, m[w].size()), k0 = r.in(0, k1); A cp(a[w].begin() + k0, a[w].begin() + k1); cmp("ctor-range", cp, M(m[w].begin() + k0, m[w].begin() + k1)); break; }
            }
        } catch (mon::Skip&) {}
        for (int k = 0; k < 3; ++k) cmp("operand", a[k], m[k], 1e-13);
    }
    for (auto ch : tr) c.sig.i(ch);
    c.nontrivial = true;
}
SCENARIO_W(array_state, 2) { arrays<StateVector<3>>(c); }
SCENARIO_W(array_scalar, 2) { arrays<double>(c); }

SCENARIO(time_array)
{
    mon::Rng& r = c.rng;
    int n = r.in(1, 60);
    double dt = r.uni(1e-3, 0.7), t0 = r.uni(-10, 10);
    c.cfg = "n " + mon::str(n) + " dt " + mon::str(dt) + " t0 " + mon::str(t0);
    ct::core::TimeArray a(dt, n, t0);
    c.check("timearray-size", (int)a.size() == n);
    for (int i = 0; i < n; ++i) c.near("timearray", a[i], t0 + i * dt, 1e-12);
    ct::core::TimeArray a0(dt, n);
    for (int i = 0; i < n; ++i) c.near("timearray-t0-default", a0[i], i * dt, 1e-12);
    ct::core::TimeArray b((size_t)n, t0);
    for (int i = 0; i < n; ++i) c.near("timearray-const", b[i], t0, 0);
    std::vector<double> v; for (int i = 0; i < n; ++i) v.push_back(r.uni(-1, 1));
    ct::core::TimeArray d(v);
    ScalarArray<double> s(v);
    c.check("from-vector-size", (int)d.size() == n && (int)s.size() == n);
    for (int i = 0; i < n; ++i) { c.near("from-vector", d[i], v[i], 0); c.near("from-vector-scalar", s[i], v[i], 0); }
    auto e = s.toEigenTrajectory();
    ScalarArray<double> s2;
    s2.fromEigenTrajectory(e);
    c.check("eigen-roundtrip", e.size() == v.size() && s2.size() == v.size());
    for (int i = 0; i < n; ++i) { c.near("toEigen", e[i](0, 0), v[i], 0); c.near("fromEigen", s2[i], v[i], 0); }
    ScalarTrajectory<double> st;
    for (int i = 0; i < n; ++i) st.push_back(v[i], t0 + i * dt, true);
    auto et = st.toEigenTrajectory();
    c.check("scalar-trajectory-toEigen-size", et.size() == v.size());
    for (int i = 0; i < n && i < (int)et.size(); ++i) c.near("scalar-trajectory-toEigen", et[i](0, 0), v[i], 0);
    double lo0 = r.uni(-3, 3);
    ScalarTrajectory<double> sc((size_t)n, lo0), sc2(st);
    c.check("scalar-trajectory-fill-size", (int)sc.size() == n && (int)sc.getDataArray().size() == n && (int)sc.getTimeArray().size() == n && (int)sc2.size() == n, mon::str(sc.getDataArray().size()));
    for (int i = 0; i < n && i < (int)sc.getDataArray().size(); ++i) { c.near("scalar-trajectory-fill", sc[i], lo0, 0); c.near("scalar-trajectory-copy", sc2[i], v[i], 0); }
    double lo = r.uni(-3, 3), hi = r.uni(-3, 3);
    if (n > 1)
    {
        auto l = linspace<ScalarArray<double>>(lo, hi, n);
        c.check("linspace-size", (int)l.size() == n);
        for (int i = 0; i < n; ++i) c.near("linspace", l[i], lo + (hi - lo) * i / (n - 1), 1e-11);
    }
    bool threw = false;
    try { linspace<ScalarArray<double>>(lo, hi, 0); } catch (std::exception&) { threw = true; }
    c.check("linspace-empty", threw);
    StateVectorArray<3> sa;
    std::vector<Eigen::Vector3d> mv;
    for (int i = 0; i < n; ++i) { StateVector<3> x; x = r.mat<3, 1>(); sa.push_back(x); mv.push_back(x); }
    auto tp = transposeArray(sa);
    c.check("transpose-size", tp.size() == 3);
    for (int j = 0; j < 3; ++j) for (int i = 0; i < n; ++i) c.near("transpose", tp[j](i, 0), mv[i](j), 0);
}

// one Interpolation object shared over several grids, as the toolbox' own users do
SCENARIO(interp_shared)
{
    mon::Rng& r = c.rng;
    InterpolationType ty = r.coin() ? ZOH : LIN;
    Interpolation<StateVector<2>> ip(ty);
    std::vector<Model> ms;
    std::vector<ct::core::TimeArray> ta;
    std::vector<DiscreteArray<StateVector<2>>> da;
    int g = r.in(2, 4);
    for (int k = 0; k < g; ++k)
    {
        Model m; m.type = ty; ct::core::TimeArray t; DiscreteArray<StateVector<2>> d; double x = r.uni(-2, 2);
        int n = r.in(1, 15);
        for (int i = 0; i < n; ++i) { StateVector<2> s; s = r.mat<2, 1>(); t.push_back(x); d.push_back(s); m.t.push_back(x); m.d.push_back(s); x += step(r); }
        ms.push_back(m); ta.push_back(t); da.push_back(d);
    }
    for (int i = 0; i < 60; ++i)
    {
        int k = r.in(0, g - 1);
        if (r.coin(0.1)) { ty = r.coin() ? ZOH : LIN; ip.changeInterpolationType(ty); for (auto& m : ms) m.type = ty; }
        double x = r.coin(0.3) ? ms[k].t[r.in(0, ms[k].t.size() - 1)] : r.uni(ms[k].t.front() - 1, ms[k].t.back() + 1);
        bool b; Eigen::VectorXd e = ms[k].eval(x, b);
        if (b) continue;
        StateVector<2> out;
        ip.interpolate(ta[k], da[k], x, out);
        c.nearm("interp", out, e, 1e-9);
        c.check("type", ip.getInterpolationType() == ty);
        if (ms[k].t.size() > 1) c.check("greatest-less-index", ip.getGreatestLessTimeStampIndex() == ms[k].index(x));
        Interpolation<StateVector<2>> ip2(ip);
        StateVector<2> out2;
        ip2.interpolate(ta[k], da[k], x, out2);
        c.nearm("interp-copy", out2, e, 1e-9);
        // caller-provided index
        StateVector<2> out3;
        if (ms[k].t.size() > 1) { ip2.interpolate(ta[k], da[k], x, out3, ms[k].index(x)); c.nearm("interp-given-index", out3, e, 1e-9); }
    }
    bool threw = false;
    if (da[0].size()) { auto d2 = da[0]; d2.pop_back(); StateVector<2> o; try { ip.interpolate(ta[0], d2, 0.0, o); } catch (std::exception&) { threw = true; } c.check("mismatched-sizes-refused", threw); }
}
MON_MAIN
