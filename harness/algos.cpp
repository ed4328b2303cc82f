// The algorithms and the functions they are made of, on chosen fitness values.
#include "trace.hpp"
#include <gapp.hpp>
#include <algorithm/nd_sort.hpp>
#include <algorithm/reference_lines.hpp>
#include <core/population.hpp>
#include <utility/cone_tree.hpp>
#include <cmath>
#include <memory>
#include <optional>
using namespace gapp;
using tr::Raw;
static constexpr int INF = 1000000;
static double val(int v, double unit) { return v >= INF ? math::inf<double> : v <= -INF ? -math::inf<double> : v * unit; }
static int back(double x) { return x == math::inf<double> ? INF : x == -math::inf<double> ? -INF : int(std::lround(x)); }
using IMat = std::vector<std::vector<int>>;
static FitnessMatrix matrix(const IMat& m, double unit)
{
    FitnessMatrix f;
    if (!m.empty()) f.reserve(m.size(), m[0].size());
    for (auto& r : m) { FitnessVector v; for (int x : r) v.push_back(val(x, unit)); f.append_row(v); }
    return f;
}
template<typename V> static std::vector<long> idx(const V& v) { std::vector<long> r; for (auto x : v) r.push_back(long(x)); return r; }

// ---------------------------------------------------------------- sets of fitness vectors
static void set_event(const IMat& m, int tn, int rn, int rd, double unit)
{
    math::ScopedTolerances _(tn * unit, double(rn) / rd);
    const FitnessMatrix f = matrix(m, unit);
    const size_t n = m.size();
    IMat cmp(n), sc; std::vector<std::vector<bool>> lt(n);
    std::vector<std::vector<int>> scalars;
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++)
    {
        cmp[i].push_back(math::paretoCompare(f[i], f[j]));
        lt[i].push_back(math::paretoCompareLess(f[i], f[j]));
    }
    std::string scs = "[";
    if (n) for (size_t i = 0; i < std::min<size_t>(n, 4); i++) for (size_t j = 0; j < std::min<size_t>(n, 4); j++)
    {
        const double a = f[i][0], b = f[j][0];
        auto c = math::floatCompare(a, b);
        std::vector<int> r = { c < 0 ? -1 : c > 0 ? 1 : 0, math::floatIsEqual(a, b), math::floatIsLess(a, b), math::floatIsGreater(a, b), math::floatIsLessEq(a, b), math::floatIsGreaterEq(a, b) };
        if (scs.size() > 1) scs += ',';
        scs += "[" + std::to_string(m[i][0]) + "," + std::to_string(m[j][0]) + ","; tr::put(scs, r); scs += "]";
    }
    scs += "]";
    std::vector<std::vector<long>> fronts; std::string nd = "[";
    std::vector<int> nadir, fnadir;
    auto ints = [&](const auto& v) { std::vector<int> r; for (double x : v) r.push_back(x == math::inf<double> ? INF : x == -math::inf<double> ? -INF : int(std::lround(x / unit))); return r; };
    fronts.push_back(idx(detail::findParetoFront(f)));
    if (n)
    {
        fronts.push_back(idx(detail::findParetoFrontSort(f)));
        fronts.push_back(idx(detail::findParetoFrontBest(f)));
        if (f.ncols() > 1) fronts.push_back(idx(detail::findParetoFrontKung(f))); else fronts.push_back(idx(detail::findParetoFront1D(f)));
        auto rec = [&](const auto& v) { if (nd.size() > 1) nd += ','; std::vector<std::pair<long, long>> r; for (const auto& e : v) r.push_back({ long(e.idx), long(e.rank) }); tr::put(nd, r); };
        namespace d = algorithm::dtl;
        rec(d::fastNonDominatedSort(f.begin(), f.end()));
        rec(d::dominanceDegreeSort(f.begin(), f.end()));
        rec(d::efficientNonDominatedSort(f.begin(), f.end()));
        auto p = d::nonDominatedSort(f); rec(std::vector<d::FrontElement>(p.begin(), p.end()));
        nadir = ints(detail::findNadirPoint(f));
        FitnessMatrix fr; for (size_t i : detail::findParetoFront(f)) fr.append_row(f[i]);
        fnadir = ints(detail::findFrontNadirPoint(fr));
    }
    nd += "]";
    tr::ev("set", "m", m, "tol", std::vector<int>{ tn, rn, rd }, "cmp", cmp, "lt", lt, "sc", Raw{ scs }, "fronts", fronts, "nd", Raw{ nd }, "nadir", nadir, "fnadir", fnadir);
}
// nested settings of the tolerances, and what is in force after every step
static void scopes_event(tr::Rnd& r)
{
    using Row = std::vector<int>;
    std::vector<std::unique_ptr<math::ScopedTolerances>> st; std::vector<Row> steps;
    auto obs = [] { const double a = math::Tolerances::abs(), b = math::Tolerances::rel(1.0);
        return Row{ a == 1e-12 ? -1 : int(std::lround(a * 4)), b == 10 * math::eps<double> ? -1 : int(std::lround(b * 8)), math::floatIsEqual(1.0, 1.25), math::floatIsLess(4.0, 8.0), math::floatCompare(0.0, 1e-12) == 0 }; };
    auto step = [&](Row v) { for (int x : obs()) v.push_back(x); steps.push_back(v); };
    step({ 2, 0, 0 });
    for (int i = r.in(1, 8); i--;)
    {
        if (st.empty() || r.chance(60)) { const int a = r.in(0, 8), b = r.in(0, 8); st.push_back(std::make_unique<math::ScopedTolerances>(a / 4.0, b / 8.0)); step({ 0, a, b }); }
        else { st.pop_back(); step({ 1, 0, 0 }); }
    }
    while (!st.empty()) { st.pop_back(); step({ 1, 0, 0 }); }
    tr::ev("scopes", "steps", steps);
}
static void fam_set(tr::Rnd& r)
{
    execution_threads(size_t(r.in(1, 4)));
    if (r.chance(20)) scopes_event(r);
    for (int rep = r.in(1, 3); rep--;)
    {
        const int n = r.chance(10) ? r.in(0, 1) : r.in(2, r.chance(10) ? 24 : 9), m = r.chance(15) ? 1 : r.in(2, 5);
        int kind = r.in(0, 5);                                   // 0-2 plain, 3 classes, 4 arbitrary with tolerance, 5 infinities
        IMat mat;
        const int hi = r.in(1, 6);
        int tn = 0, rn = 0, rd = 1; double unit = 1;
        if (kind == 3) { tn = r.in(1, 3); unit = 0.25; }
        if (kind == 4) { unit = 0.25; if (r.chance(50)) tn = r.in(0, 4); if (r.chance(70)) { rn = r.in(1, 3); rd = 4; } }
        for (int i = 0; i < n; i++)
        {
            std::vector<int> v;
            for (int j = 0; j < m; j++)
            {
                int x = r.in(0, hi);
                if (kind == 3) x = x * (2 * tn + 1) + r.in(0, tn);
                if (kind == 4) x = r.in(-12, 12);
                if (kind == 2) x -= hi / 2;
                if (kind == 5 && r.chance(30)) x = r.chance(50) ? INF : -INF;
                v.push_back(x);
            }
            mat.push_back(v);
            if (i > 0 && r.chance(10)) mat.back() = mat[size_t(r.in(0, i - 1))];
        }
        set_event(mat, tn, rn, rd, unit);
    }
}

// ---------------------------------------------------------------- merging
using C = Candidate<IntegerGene>;
static void fam_merge(tr::Rnd& r)
{
    execution_threads(size_t(r.in(1, 8)));
    for (int rep = r.in(1, 4); rep--;)
    {
        const int m = r.in(1, 4), hi = r.in(1, 9);
        const bool big = r.chance(25);
        int next = 1;
        auto make = [&](int n, const std::vector<C>& other)
        {
            std::vector<C> s;
            for (int i = 0; i < n; i++)
            {
                C c(Chromosome<IntegerGene>{ next++ });
                if (!other.empty() && r.chance(20)) c.fitness = other[size_t(r.in(0, int(other.size()) - 1))].fitness;
                else
                {
                    // around a common surface, so that few dominate each other
                    std::vector<int> v; int left = hi * m / 2 + r.in(0, 2);
                    for (int j = 0; j < m; j++) { int x = j + 1 == m ? std::min(left, hi + 3) : r.in(0, std::min(hi, left)); left -= x; v.push_back(x); }
                    c.fitness = FitnessVector(v.begin(), v.end());
                }
                c.is_evaluated = true;
                s.push_back(c);
            }
            std::vector<C> f;
            for (auto& a : s)
            {
                bool dom = false;
                for (auto& b : s) { bool w = false, l = false; for (int j = 0; j < m; j++) { w |= b.fitness[j] > a.fitness[j]; l |= b.fitness[j] < a.fitness[j]; } dom |= w && !l; }
                if (!dom) f.push_back(a);
            }
            return f;
        };
        auto L = make(r.chance(5) ? 0 : r.in(1, big ? 60 : 8), {}), R = make(r.chance(5) ? 0 : r.in(1, big ? 60 : 8), L);
        auto enc = [](const std::vector<C>& s) { std::vector<Raw> o; for (auto& c : s) { std::vector<int> f; for (double x : c.fitness) f.push_back(back(x)); std::string t = "["; tr::put(t, c.chromosome.empty() ? -1 : c.chromosome[0]); t += ","; tr::put(t, f); t += "]"; o.push_back({ t }); } return o; };
        const int times = execution_threads() > 1 ? 3 : 1;
        for (int k = 0; k < times; k++)
        {
            auto out = detail::mergeParetoSets(L, R);
            tr::ev("merge", "l", enc(L), "r", enc(R), "out", enc(out));
        }
    }
}

// ---------------------------------------------------------------- reference directions and the cone tree
static IMat points(const FitnessMatrix& f, bool& negative)
{
    IMat o;
    for (const auto& p : f) { std::vector<int> v; for (double x : p) { negative |= !(x >= 0.0); v.push_back(std::isfinite(x) ? int(std::lround(x * 1e6)) : 2000000); } o.push_back(v); }
    return o;
}
static void fam_lines(tr::Rnd& r)
{
    namespace rl = algorithm::reflines;
    const rl::RefLineGenerator gens[] = { rl::quasirandomSimplexPointsMirror, rl::quasirandomSimplexPointsSort, rl::quasirandomSimplexPointsRoot, rl::quasirandomSimplexPointsLog };
    for (int rep = 3; rep--;)
    {
        const int g = r.in(0, 3), d = r.chance(10) ? 1 : r.in(2, r.chance(20) ? 20 : 6), n = r.chance(15) ? r.in(0, 1) : r.in(2, r.chance(10) ? 150 : 25);
        bool neg = false;
        if (r.chance(60)) { auto p = points(gens[g](size_t(d), size_t(n)), neg); tr::ev("lines", "g", g, "d", d, "n", n, "pts", p, "negative", neg); }
        else
        {
            const int k = r.in(1, 6);
            auto from = points(gens[g](size_t(d), size_t(k * n)), neg);
            auto p = points(rl::pickSparseSubset(size_t(d), size_t(n), gens[g], size_t(k)), neg);
            tr::ev("lines", "g", g, "d", d, "n", n, "pts", p, "negative", neg, "from", from);
        }
    }
}
static void fam_cone(tr::Rnd& r)
{
    for (int rep = 2; rep--;)
    {
        const int d = r.in(1, 6), style = r.in(0, 3);
        const int n = r.chance(10) ? r.in(0, 1) : r.in(2, r.chance(40) ? 120 : 20), hi = style == 1 ? 1 : r.in(1, 30);
        std::vector<small_vector<double>> pts; IMat ip;
        for (int i = 0; i < n; i++)
        {
            std::vector<int> p;
            for (int j = 0; j < d; j++) p.push_back(style == 2 ? (i < n / 2 ? 3 : j) : style == 3 ? (j == i % d ? r.in(-hi, hi) : 0) : r.in(-hi, hi));
            ip.push_back(p); pts.emplace_back(p.begin(), p.end());
        }
        detail::ConeTree tree{ std::span<const small_vector<double>>(pts) };
        std::string qs = "[";
        for (int q = 0; q < 12; q++)
        {
            std::vector<int> x; for (int j = 0; j < d; j++) x.push_back(q == 0 ? 0 : r.in(-9, 9));
            small_vector<double> v(x.begin(), x.end());
            auto res = tree.findBestMatch(v);
            if (q) qs += ',';
            qs += '['; tr::put(qs, x); qs += ',';
            if (res.elem == tree.end() || n == 0) qs += "\"none\",[],0";
            else { std::vector<int> e; for (double y : *res.elem) e.push_back(back(y)); qs += "\"some\","; tr::put(qs, e); qs += ','; tr::put(qs, back(res.prod)); }
            qs += ']';
        }
        qs += "]";
        tr::ev("cone", "pts", ip, "size", tree.size(), "qs", Raw{ qs });
    }
}

// ---------------------------------------------------------------- selection frequencies
static void freq_in(tr::Rnd& r, bool thorough, const GaInfo& ga)
{
    const int N = thorough ? 400000 : 100000; const int tol = int(3.0 * std::sqrt(double(N)));       // at least 6 standard deviations
    {
        const int kind = r.chance(20) ? 5 : r.in(0, 5);
        int n = r.chance(10) ? 1 : r.in(2, 8);
        std::vector<int> f;
        const int style = r.in(0, 4), hi = r.in(1, 8);
        for (int i = 0; i < n; i++) f.push_back(style == 0 ? hi : style == 1 ? r.in(0, 1) * hi : r.in(0, hi));
        std::unique_ptr<selection::Selection> s;
        std::string m; int p = 0, lo = 0, hi2 = 0, a = 0, b = 1, k = 0;
        switch (kind)
        {
            case 0:
            {
                m = "tournament"; p = r.in(1, 4); if (n < p) p = n;
                if (r.chance(30)) for (int& x : f) { x -= hi / 2; if (r.chance(20)) x = r.chance(50) ? INF : -INF; }
                if (r.chance(50)) s = std::make_unique<selection::Tournament>(size_t(p)); else { auto t = std::make_unique<selection::Tournament>(); t->size(size_t(p)); s = std::move(t); }
                break;
            }
            case 1: m = "roulette"; s = std::make_unique<selection::Roulette>(); break;
            case 2: m = "negroulette"; for (int& x : f) x -= hi; s = std::make_unique<selection::Roulette>(); break;
            case 3:
            {
                m = "rank"; lo = r.in(0, 3); hi2 = lo + r.in(0, 6); if (hi2 == 0) hi2 = 1;
                if (r.chance(30)) for (int& x : f) { x -= hi / 2; if (r.chance(20)) x = r.chance(50) ? INF : -INF; }
                if (r.chance(50)) s = std::make_unique<selection::Rank>(lo / 2.0, hi2 / 2.0); else { auto t = std::make_unique<selection::Rank>(); t->weights(lo / 2.0, hi2 / 2.0); s = std::move(t); }
                break;
            }
            case 4:
            {
                m = "sigma";                                        // needs a rational deviation
                for (int t = 0; t < 200; t++)
                {
                    long sum = 0, sq = 0; for (int x : f) { sum += x; sq += x * x; }
                    long v = n * sq - sum * sum, q = std::lround(std::sqrt(double(v)));
                    if (q * q == v) break;
                    for (int& x : f) x = r.in(-4, 4);
                    if (t == 150) for (int i = 0; i < n; i++) f[size_t(i)] = (n % 2 == 0) ? (i % 2 ? 3 : -1) : 2;
                }
                const int sc[][2] = { { 1, 2 }, { 1, 1 }, { 2, 1 }, { 3, 1 }, { 1, 4 } }; int z = r.in(0, 4);
                a = sc[z][0]; b = sc[z][1];
                if (r.chance(50)) s = std::make_unique<selection::Sigma>(double(a) / b); else { auto t = std::make_unique<selection::Sigma>(); t->scale(double(a) / b); s = std::move(t); }
                break;
            }
            case 5:
            {
                m = "boltzmann"; const int u0 = r.in(0, 3); const auto kOf = [u0](size_t g, size_t mg) { return 1 + int((size_t(u0) + g + 2 * mg) % 4); };
                k = kOf(ga.generation_cntr(), ga.max_gen());                  // the temperature of this generation of this run
                const int u = r.in(1, 3); for (int i = 0; i < n; i++) f[size_t(i)] = u * (i == 0 ? 0 : i == 1 ? k : r.in(0, k)) - 3;
                s = std::make_unique<selection::Boltzmann>([kOf](size_t g, size_t mg) { return 1.0 / (kOf(g, mg) * std::log(2.0)); });
                break;
            }
        }
        FitnessMatrix fm; for (int x : f) fm.append_row(FitnessVector{ val(x, 1) });
        const selection::Selection& sel = *s;
        s->initializeImpl(ga);
        if (r.chance(30)) { FitnessMatrix other; for (int i = r.chance(60) ? n : 9; i--;) other.append_row(FitnessVector{ double(r.in(0, 9)) }); s->prepareSelectionsImpl(ga, other); }   // nothing of an earlier population remains
        s->prepareSelectionsImpl(ga, fm);
        std::vector<long> cnt(size_t(n), 0); long outside = 0;
        for (int i = 0; i < N; i++) { size_t x = sel.selectImpl(ga, fm); if (x < size_t(n)) cnt[x]++; else outside++; }
        if (outside) cnt.push_back(outside);
        tr::ev("freq", "m", m, "f", f, "cnt", cnt, "n", N, "tol", tol, "p", p, "lo", lo, "hi", hi2, "a", a, "b", b, "k", k);
    }
}
static void fam_freq(tr::Rnd& r, bool thorough)
{
    IntegerGA ga(4);
    const int gens = r.in(1, 3); const bool cool = r.chance(25); const int last = cool ? r.in(12, 30) : gens;
    std::vector<long> best; const int N = 100000;
    std::unique_ptr<selection::Selection> dflt = std::make_unique<selection::Boltzmann>();
    ga.on_generation_end([&](const GaInfo& gi)
    {
        if (int(gi.generation_cntr()) < 2 || r.chance(10)) freq_in(r, thorough, gi);
        if (!cool) return;
        FitnessMatrix fm; fm.append_row(FitnessVector{ 3.0 }); fm.append_row(FitnessVector{ 5.0 });
        dflt->prepareSelectionsImpl(gi, fm); long c = 0; const selection::Selection& sel = *dflt;
        for (int i = 0; i < N; i++) c += long(sel.selectImpl(gi, fm));
        best.push_back(c);
    });
    struct One final : FitnessFunctionBase<IntegerGene> { One() : FitnessFunctionBase<IntegerGene>(1) {} FitnessVector invoke(const Chromosome<IntegerGene>&) const override { return { 1.0 }; } };
    ga.solve(One{}, Bounds<IntegerGene>(0, 5), size_t(last));
    if (cool) tr::ev("cool", "n", N, "tol", int(4.0 * std::sqrt(double(N))), "best", best, "gens", last);
}

// ---------------------------------------------------------------- runs with chosen fitness values
struct World { std::vector<std::vector<int>> fit; std::vector<long> kids; IMat lines; std::vector<double> unit, off; };      // the solver sees (fit + off) * unit: what it does depends on neither
static World W; static std::mutex WM;
struct Fit final : FitnessFunctionBase<IntegerGene> {
    Fit() : FitnessFunctionBase<IntegerGene>(2) {}
    FitnessVector invoke(const Chromosome<IntegerGene>& c) const override
    {
        if (size_t(c[0]) >= W.fit.size()) return FitnessVector(W.fit[0].size(), 0.0);      // the call made to learn the number of objectives
        { std::lock_guard g(WM); W.kids.push_back(long(c[0]) + 1); }
        const auto& f = W.fit[size_t(c[0])]; FitnessVector v; for (size_t j = 0; j < f.size(); j++) v.push_back(std::abs(f[j]) >= INF ? val(f[j], 1) : (f[j] + W.off[j]) * W.unit[j]); return v;
    }
};
static void fam_run(tr::Rnd& r, std::string fam, bool thorough)
{
    const bool big = fam.ends_with("big"); if (big) fam.resize(fam.size() - 3);       // large populations: longer than the blocks of the parallel loops
    execution_threads(fam == "nsga3" ? size_t(big ? r.in(3, 6) : r.in(1, 3)) : 1);
    W = World{};
    std::string alg = fam; int k = 0;
    if (fam == "soga") { int z = r.in(0, 2); alg = z == 0 ? "children" : z == 1 ? "elitism" : "best"; }
    const int n = big ? (fam == "nsga3" ? r.in(180, 330) : r.in(20, 60)) : r.chance(8) ? 1 : r.in(2, fam == "soga" ? 8 : 7), gens = big ? r.in(1, 2) : r.in(1, 4);
    const int m = fam == "soga" ? 1 : big ? 2 : fam == "nsga3" ? r.in(2, 3) : r.in(2, 4);
    const int hi = fam == "nsga3" ? (m == 2 ? 9 : 5) : r.in(1, 12);
    const int total = n * (gens + 1) + 4;
    const double un = std::ldexp(1.0, r.in(-7, 7)); const bool moved = r.chance(60), scaled = r.chance(60);
    for (int j = 0; j < m; j++) { W.unit.push_back(!scaled ? 1.0 : fam == "nsga3" ? un : std::ldexp(1.0, r.in(-7, 7))); W.off.push_back(moved ? r.in(-30, 10) : 0); }
    // fitness of all candidates that will ever exist
    const int style = r.in(0, 4);
    for (int i = 0; i < total; i++)
    {
        std::vector<int> f; int left = hi * m / 2 + r.in(0, 2);
        for (int j = 0; j < m; j++)
        {
            int x = style < 3 ? r.in(0, hi) : (j + 1 == m ? std::min(left, hi) : r.in(0, std::min(hi, left)));
            left -= x;
            if (m == 1) { x = r.in(-2, hi); if (style == 0 && r.chance(15)) x = r.chance(50) ? INF : -INF; }
            f.push_back(x);
        }
        if (style == 1 && m > 1) for (int j = 0; j < m; j++) f[size_t(j)] = int((f[size_t(j)] * 101 + i * 7) % 1000) % (hi * 4);      // mostly distinct values
        if (fam == "nsga3") for (int& x : f) x = std::clamp(x, 0, hi);
        if (big && fam == "soga") f = { r.in(0, 1000) };
        if (big && fam == "nsga3") { const int x = r.in(0, 60); f = { x, 60 - x - (r.chance(style == 0 ? 60 : 5) ? r.in(0, std::min(8, 60 - x)) : 0) }; }
        if (big && fam == "nsga2") { const int x = (i * 7919 + style * 131) % 1009; f = { x, style < 2 ? 1009 - x : (style == 2 ? r.in(0, 4000) : 2000 - x - (i % 3) * 200) }; }
        if (i > 0 && r.chance(style == 2 ? 25 : 4)) f = W.fit[size_t(r.in(0, i - 1))];
        W.fit.push_back(f);
    }
    IntegerGA ga{ size_t(n) };
    ga.population_size(size_t(n));
    if (alg == "children") ga.algorithm(algorithm::SingleObjective(selection::Roulette{}, replacement::KeepChildren{}));
    if (alg == "elitism") { k = r.in(0, n + 1); replacement::Elitism e{ size_t(k) }; if (r.chance(50)) { e = replacement::Elitism{}; e.elite_num(size_t(k)); if (r.chance(20)) { e = replacement::Elitism{}; k = 1; } }
                            ga.algorithm(algorithm::SingleObjective(selection::Rank{}, e)); }
    if (alg == "best") { if (n >= 2 && r.chance(30)) ga.algorithm(algorithm::SingleObjective{}); else { algorithm::SingleObjective so(selection::Rank{}, replacement::KeepChildren{}); so.replacement_method(replacement::KeepBest{}); ga.algorithm(std::move(so)); } }
    if (alg == "children" && style == 0) ga.algorithm(algorithm::SingleObjective(selection::Rank{}, replacement::KeepChildren{}));
    if (alg == "nsga2") ga.algorithm(algorithm::NSGA2{});
    if (alg == "nsga3")
    {
        // distinct primitive directions
        std::vector<std::vector<int>> all;
        for (int a = 0; a <= 4; a++) for (int b = 0; b <= 4; b++) for (int c = 0; c <= (m == 3 ? 3 : 0); c++)
        {
            if (m == 3 && (a > 3 || b > 3)) continue;
            int g = std::gcd(std::gcd(a, b), c); if (g == 1) { std::vector<int> v = { a, b }; if (m == 3) v.push_back(c); all.push_back(v); }
        }
        for (int i = int(all.size()) - 1; i > 0; i--) std::swap(all[size_t(i)], all[size_t(r.in(0, i))]);
        all.resize(size_t(std::min<int>(int(all.size()), r.chance(60) ? n : r.in(1, n + 2))));
        if (big) { all = { { 1, 0 }, { 1, 2 } }; if (r.chance(40)) all[0] = { 2, 1 }, all[1] = { 0, 1 }; }        // no point with integer coordinates is equally close to both
        W.lines = all;
        ga.algorithm(algorithm::NSGA3([](size_t dim, size_t) { FitnessMatrix l; for (auto& v : W.lines) l.append_row(FitnessVector(v.begin(), v.end())); (void)dim; return l; }));
    }
    std::atomic<int> next = n; std::mutex mx;
    // every child is a new candidate: the mutation numbers it
    ga.crossover_rate(0.0);
    ga.mutation_method([&](const GA<IntegerGene>&, const C&, Chromosome<IntegerGene>& c) { std::lock_guard g(mx); c[0] = next++; });
    Population<IntegerGene> init;
    for (int i = 0; i < n; i++) init.emplace_back(Chromosome<IntegerGene>{ i, 0 });
    const int draws = thorough ? 160000 : 40000;
    const int nd = (fam == "soga" || big) ? 0 : r.chance(40) ? 2 : 0;
    size_t seen = 0; std::vector<long> prev;
    tr::ev("run", "alg", alg, "n", n, "m", m, "k", k, "lines", W.lines);
    ga.on_generation_end([&](const GaInfo& g)
    {
        std::vector<long> pop; for (auto& c : ga.population()) pop.push_back(long(c.chromosome[0]) + 1);
        // the children of this generation: with an odd population size one of the last pair is dropped, the kept ones were evaluated
        const int made = g.generation_cntr() == 0 ? n : next.load() - int(seen);
        std::vector<long> kids; IMat fk;
        for (int i = 0; i < made; i++) fk.push_back(W.fit[seen + size_t(i)]);
        for (long c : W.kids) if (c > long(seen)) kids.push_back(c);
        W.kids.clear();
        seen += size_t(made);
        tr::ev("gen", "kids", kids, "fk", fk, "pop", pop);
        if (nd && (g.generation_cntr() == 0 || int(g.generation_cntr()) >= gens - 1))
        {
            std::vector<long> cnt(size_t(n), 0); const auto& p = ga.population();
            for (int i = 0; i < draws; i++) { const C& c = ga.algorithm().select(ga, p, g.fitness_matrix()); cnt[size_t(&c - p.data())]++; }
            tr::ev("draws", "n", draws, "tol", int(3.0 * std::sqrt(double(draws))), "cnt", cnt);
        }
    });
    BoundsVector<IntegerGene> bv(2, Bounds<IntegerGene>(0, 1000000));
    auto sols = ga.solve(Fit{}, bv, size_t(gens), init);
    std::vector<long> ids; for (auto& c : sols) ids.push_back(long(c.chromosome[0]) + 1);
    tr::ev("ret", "sols", ids);
}

int main(int argc, char** argv)
{
    tr::Args a = tr::parse(argc, argv);
    std::string fam = "set"; int cnt = 0;
    for (int i = 1; i < argc; i++) { if (!strcmp(argv[i], "--fam")) fam = argv[i + 1]; if (!strcmp(argv[i], "--n")) cnt = atoi(argv[i + 1]); }
    const std::vector<std::string> gen = a.ops.empty() ? std::vector<std::string>{} : tr::lines(a.ops);
    return tr::run(a, long(gen.size()) + long(cnt) * (a.thorough ? 10 : 1), [&](long k)
    {
        tr::begin(k, tr::obj("fam", fam));
        if (k < long(gen.size()))
        {
            std::vector<int> v; const char* c = gen[size_t(k)].c_str(); char* e;
            for (long x = strtol(c, &e, 10); e != c; x = strtol(c, &e, 10)) { v.push_back(int(x)); c = e; }
            IMat m; for (size_t i = 1; i + size_t(v[0]) <= v.size(); i += size_t(v[0])) m.emplace_back(v.begin() + long(i), v.begin() + long(i) + v[0]);
            set_event(m, 0, 0, 1, 1.0);
            return;
        }
        tr::Rnd r(a.seed * 1000003 + uint64_t(k) * 31 + fam.size());
        const auto one = [&]
        {
            rng::prng.seed(uint64_t(a.seed * 7919 + k));
            if (fam == "set") fam_set(r);
            else if (fam == "merge") fam_merge(r);
            else if (fam == "lines") fam_lines(r);
            else if (fam == "cone") fam_cone(r);
            else if (fam == "freq") fam_freq(r, a.thorough);
            else fam_run(r, fam, a.thorough);
        };
#ifdef VS_SHIM
        vs::scenario(r.next(), [&] { one(); execution_threads(1); });
#else
        one();
#endif
    });
}
