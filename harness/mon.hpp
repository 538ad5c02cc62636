// Monitor runtime shared by all harnesses: seeded cases, oracle comparisons, event log.
#pragma once
#include <Eigen/Dense>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <memory>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <unistd.h>

namespace mon {

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    double uni(double a = 0.0, double b = 1.0) { return a + (b - a) * ((next() >> 11) * (1.0 / 9007199254740992.0)); }
    int in(int a, int b) { return a + int(next() % uint64_t(b - a + 1)); }  // inclusive
    bool coin(double p = 0.5) { return uni() < p; }
    double gauss() { return std::sqrt(-2 * std::log(1 - uni())) * std::cos(6.283185307179586 * uni()); }
    template <int R, int Cc>
    Eigen::Matrix<double, R, Cc> mat(double a = -1, double b = 1)
    {
        Eigen::Matrix<double, R, Cc> m;
        for (int j = 0; j < Cc; ++j)
            for (int i = 0; i < R; ++i) m(i, j) = uni(a, b);
        return m;
    }
    Eigen::MatrixXd dmat(int r, int c, double a = -1, double b = 1)
    {
        Eigen::MatrixXd m(r, c);
        for (int j = 0; j < c; ++j)
            for (int i = 0; i < r; ++i) m(i, j) = uni(a, b);
        return m;
    }
    Eigen::VectorXd dvec(int n, double a = -1, double b = 1) { return dmat(n, 1, a, b); }
    // symmetric positive definite with eigenvalues in [lo,hi]
    Eigen::MatrixXd spd(int n, double lo = 0.1, double hi = 3.0)
    {
        Eigen::MatrixXd q = Eigen::HouseholderQR<Eigen::MatrixXd>(dmat(n, n)).householderQ();
        Eigen::VectorXd d = dvec(n, lo, hi);
        Eigen::MatrixXd m = q * d.asDiagonal() * q.transpose();
        return 0.5 * (m + m.transpose());
    }
};

struct Hash
{
    uint64_t h = 1469598103934665603ull;
    void add(const void* p, size_t n)
    {
        const unsigned char* c = (const unsigned char*)p;
        for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
    }
    void d(double v) { float f = (float)v; add(&f, sizeof f); }
    void i(long v) { add(&v, sizeof v); }
    template <class D>
    void m(const Eigen::MatrixBase<D>& x)
    {
        for (int j = 0; j < x.cols(); ++j)
            for (int i = 0; i < x.rows(); ++i) d(x(i, j));
    }
};

struct Skip : std::exception {};  // case does not meet its preconditions

class Case
{
public:
    Rng rng;
    long idx;
    bool thorough;
    std::string scen;
    Hash sig;             // signature of what was observed
    std::string cfg;      // human-readable configuration, used in violation reports
    bool nontrivial = false;
    long checks = 0;
    FILE* log;
    std::set<std::string> seen;
    void viol(const std::string& name, const std::string& detail)
    {
        if (!seen.insert(name).second) return;
        std::string d = detail + " [" + cfg + "]";
        for (auto& ch : d)
            if (ch == '\n' || ch == '\t') ch = ' ';
        fprintf(log, "V\t%ld\t%s\t%s/%s\t%s\n", idx, scen.c_str(), scen.c_str(), name.c_str(), d.substr(0, 1500).c_str());
        fflush(log);
    }
    void sample(const std::string& t)
    {
        std::string d = t;
        for (auto& ch : d)
            if (ch == '\n' || ch == '\t') ch = ' ';
        fprintf(log, "S\t%ld\t%s\t%s\n", idx, scen.c_str(), d.substr(0, 600).c_str());
    }
    bool check(const std::string& name, bool ok, const std::string& detail = "")
    {
        ++checks;
        if (!ok) viol(name, detail);
        return ok;
    }
    // |got-want| <= tol*(1+|want|), NaN is a violation
    bool near(const std::string& name, double got, double want, double tol)
    {
        ++checks;
        nontrivial = true;
        sig.d(got);
        if (got == want) return true;  // covers equal infinities
        bool ok = std::abs(got - want) <= tol * (1 + std::abs(want));
        if (!ok)
        {
            std::ostringstream o;
            o << std::setprecision(12) << "got " << got << " want " << want << " tol " << tol;
            viol(name, o.str());
        }
        return ok;
    }
    template <class A, class B>
    bool nearm(const std::string& name, const Eigen::MatrixBase<A>& got, const Eigen::MatrixBase<B>& want, double tol)
    {
        ++checks;
        nontrivial = true;
        if (got.rows() != want.rows() || got.cols() != want.cols())
        {
            std::ostringstream o;
            o << "size " << got.rows() << "x" << got.cols() << " want " << want.rows() << "x" << want.cols();
            viol(name, o.str());
            return false;
        }
        sig.m(got);
        double scale = 1;
        for (int j = 0; j < want.cols(); ++j)
            for (int i = 0; i < want.rows(); ++i)
                if (std::isfinite(double(want(i, j)))) scale = std::max(scale, 1 + std::abs(double(want(i, j))));
        bool ok = true;
        for (int j = 0; j < want.cols(); ++j)
            for (int i = 0; i < want.rows(); ++i)
            {
                double g = got(i, j), w = want(i, j);
                if (g == w) continue;
                if (!(std::abs(g - w) <= tol * scale)) ok = false;
            }
        if (!ok)
        {
            std::ostringstream o;
            o << std::setprecision(10) << "got [" << got << "] want [" << want << "] tol " << tol;
            viol(name, o.str());
        }
        return ok;
    }
};

typedef std::function<void(Case&)> Fn;
struct Scen
{
    std::string name;
    Fn fn;
    int weight;
};
inline std::vector<Scen>& scens()
{
    static std::vector<Scen> s;
    return s;
}
struct Reg
{
    Reg(const char* n, Fn f, int w = 1) { scens().push_back({n, f, w}); }
};
// Scenarios are templates, so that one that is not selected at compile time costs no compile time:
// MON_ONLY is a comma-separated list of names, MON_PART of MON_PARTS takes every MON_PARTS-th of those.
#ifndef MON_ONLY
#define MON_ONLY ""
#endif
#ifndef MON_PARTS
#define MON_PARTS 1
#define MON_PART 0
#endif
constexpr bool listed(const char* list, const char* name)
{
    if (!*list)
        return true;
    while (*list)
    {
        const char *l = list, *n = name;
        while (*n && *l == *n) ++l, ++n;
        if (!*n && (!*l || *l == ','))
            return true;
        while (*list && *list != ',') ++list;
        if (*list)
            ++list;
    }
    return false;
}
template <class H, bool SELECTED>
struct RegIf
{
    RegIf(const char*, int) {}
};
template <class H>
struct RegIf<H, true>
{
    RegIf(const char* name, int w) { Reg(name, &H::template mon_body<0>, w); }
};
#define SCENARIO_W(name, w)                                                                                           \
    namespace {                                                                                                       \
    struct Scen_##name                                                                                                \
    {                                                                                                                 \
        template <int>                                                                                                \
        static void mon_body(mon::Case& c);                                                                                \
    };                                                                                                                \
    mon::RegIf<Scen_##name, mon::listed(MON_ONLY, #name) && __COUNTER__ % MON_PARTS == MON_PART> reg_##name(#name, w); \
    }                                                                                                                 \
    template <int>                                                                                                    \
    void Scen_##name::mon_body(mon::Case& c)
#define SCENARIO(name) SCENARIO_W(name, 1)

// silence the toolbox' chatter on std::cout
struct NullBuf : std::streambuf
{
    int overflow(int ch) override { return ch; }
};

// usage: prog SEED SHARD NSHARDS FIRST COUNT LOG TIER [SCENARIO]
inline int run(int argc, char** argv)
{
    if (argc < 8) { fprintf(stderr, "usage: prog SEED SHARD NSHARDS FIRST COUNT LOG TIER [SCENARIO]\n"); return 3; }
    uint64_t seed = strtoull(argv[1], 0, 10);
    long shard = atol(argv[2]), nsh = atol(argv[3]), first = atol(argv[4]), count = atol(argv[5]);
    FILE* log = fopen(argv[6], "a");
    if (!log) { perror("log"); return 3; }
    bool thorough = !strcmp(argv[7], "thorough");
    std::string only = argc > 8 ? argv[8] : "";
    static NullBuf nb;
    if (!getenv("MON_VERBOSE")) std::cout.rdbuf(&nb);
    std::vector<Scen> tab;
    // stable order by name so that the case numbering does not depend on link order
    auto all = scens();
    std::sort(all.begin(), all.end(), [](const Scen& a, const Scen& b) { return a.name < b.name; });
    for (auto& s : all)
        if (only.empty() || ("," + only + ",").find("," + s.name + ",") != std::string::npos)
            for (int k = 0; k < s.weight; ++k) tab.push_back(s);
    if (tab.empty()) { fprintf(stderr, "no scenario\n"); return 3; }
    for (long i = first; i < count; ++i)
    {
        // consecutive block per scenario cycle; shard by cycle-independent index
        if (i % nsh != shard) continue;
        long cyc = i / (long)tab.size();
        Scen& s = tab[(i + cyc) % tab.size()];
        Case c;
        c.idx = i;
        c.thorough = thorough;
        c.scen = s.name;
        c.log = log;
        c.rng = Rng(seed * 0x100000001B3ull ^ (uint64_t(i) * 0xD1B54A32D192ED03ull) ^ 0x5bf03635ull);
        c.rng.next();
        c.sig.add(s.name.data(), s.name.size());
        fprintf(log, "B\t%ld\t%s\n", i, s.name.c_str());
        fflush(log);
        bool skipped = false;
        try
        {
            s.fn(c);
        } catch (Skip&)
        {
            skipped = true;
        } catch (std::exception& e)
        {
            std::string w = e.what();
            c.viol("exception", "unexpected exception: " + w);
        } catch (...)
        {
            c.viol("exception", "unexpected non-std exception");
        }
        fprintf(log, "E\t%ld\t%s\t%016llx\t%d\t%ld\t%d\n", i, s.name.c_str(), (unsigned long long)c.sig.h,
            c.nontrivial ? 1 : 0, c.checks, skipped ? 1 : 0);
        if (i < (long)tab.size()) c.sample(c.cfg);
        fflush(log);
    }
    fprintf(log, "D\t%ld\n", shard);
    fclose(log);
    return 0;
}

// a scratch file name in the run's working directory
inline std::string tmpname(const char* tag) { return std::string("./mon-") + tag + "-" + std::to_string(getpid()) + ".tmp"; }
inline std::string writefile(const char* tag, const std::string& text)
{
    std::string n = tmpname(tag);
    std::ofstream(n) << text;
    return n;
}
inline std::string full(double x)
{
    char b[64];
    snprintf(b, sizeof b, "%.17g", x);
    return b;
}
template <class T>
std::string str(const T& x)
{
    std::ostringstream o;
    o << std::setprecision(6) << x;
    return o.str();
}
}  // namespace mon
#define MON_MAIN                       \
    int main(int argc, char** argv)    \
    {                                  \
        int r = mon::run(argc, argv);  \
        fflush(stdout);                \
        _exit(r);                      \
    }
