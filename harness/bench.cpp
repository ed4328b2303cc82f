// The benchmark problems: their values on grids of points, what they state about themselves, and tours.
#include "trace.hpp"
#include "problems/problems.hpp"
#include <cmath>
#include <memory>
#include <limits>
#include <numeric>
#include <algorithm>
using namespace gapp; using namespace gapp::problems;
using Ints = std::vector<long long>; using Lims = std::vector<Ints>;
static long long fx(double v, double s = 16384.0) { if (std::isnan(v)) return -2000000001; v *= s; return v > 2e9 ? 2000000000 : v < -2e9 ? -2000000000 : std::llround(v); }
template<typename V> Ints fxs(const V& v, double s = 16384.0) { Ints r; for (auto x : v) r.push_back(fx(double(x), s)); return r; }
template<typename T> Lims lims(const BoundsVector<T>& b, double s) { Lims r; for (auto& x : b) r.push_back({ fx(double(x.lower()), s), fx(double(x.upper()), s) }); return r; }

static const char* names[] = { "Sphere", "Rastrigin", "Rosenbrock", "Schwefel", "Griewank", "Ackley", "Levy", "Kursawe", "ZDT1", "ZDT2", "ZDT3", "ZDT4", "ZDT6", "DTLZ1", "DTLZ2", "DTLZ3", "DTLZ4", "DTLZ5", "DTLZ6", "DTLZ7" };
using P = std::unique_ptr<BenchmarkFunction<RealGene>>;
static P make(const std::string& p, size_t a, size_t vb)
{
#define X(N) if (p == #N) return std::make_unique<N>(a, vb);
    X(Sphere) X(Rastrigin) X(Rosenbrock) X(Schwefel) X(Griewank) X(Ackley) X(Levy) X(Kursawe) X(ZDT1) X(ZDT2) X(ZDT3) X(ZDT4) X(ZDT6) X(DTLZ1) X(DTLZ2) X(DTLZ3) X(DTLZ4) X(DTLZ5) X(DTLZ6) X(DTLZ7)
    abort();
}
static FitnessVector at(const BenchmarkFunction<RealGene>& f, const Chromosome<RealGene>& x) { return f(x); }
template<typename F> void info(const F& f, const std::string& p, size_t a, bool opt = true)
{
    Ints o; double err = 0; FitnessVector v;
    if (opt) { o = fxs(f.optimum()); v = f(f.optimum()); for (size_t i = 0; i < v.size(); i++) err = std::max(err, i < f.optimal_value().size() ? std::abs(v[i] - f.optimal_value()[i]) : 1e3); if (v.size() != f.optimal_value().size()) err = 1e3; }
    tr::ev("info", "p", p, "a", a, "nobj", f.num_objectives(), "nvars", f.num_vars(), "lims", lims(f.bounds(), 16384.0), "ideal", fxs(f.ideal_point()), "nadir", fxs(f.nadir_point()),
           "opt", o, "optf", fxs(v), "opterr", fx(err, 1e6));
}
static int gridof(const std::string& p) { return p == "Rosenbrock" || p == "Kursawe" ? 8 : p == "Schwefel" || p == "Griewank" ? 16 : 64; }
// the value of variable i at the grid point z
static double coord(const std::string& p, size_t i, size_t m, int z)
{
    const double v = double(z) / gridof(p);
    return p == "DTLZ4" && i + 1 < m ? std::pow(v, 0.01) : p == "DTLZ6" && i + 1 >= m ? std::pow(v, 10) : v;
}
static void given(const std::vector<int>& v)
{
    const std::string p = names[v.at(0)]; const size_t m = size_t(v.at(1)), n = v.size() - 2;
    const P f = make(p, p[0] == 'D' ? m : n, 8);
    Ints k; Chromosome<RealGene> x; for (size_t i = 0; i < n; i++) { k.push_back(v[i + 2]); x.push_back(coord(p, i, m, v[i + 2])); }
    tr::ev("val", "p", p, "m", m, "k", k, "f", fxs((*f)(x)));
}
static void real(tr::Rnd& r)
{
    const std::string p = names[r.in(0, 19)];
    const bool dtlz = p[0] == 'D';
    const bool two = dtlz || p[0] == 'Z' || p == "Kursawe";
    const size_t a = size_t(dtlz ? r.in(2, 6) : two ? r.in(2, 9) : r.in(1, 7));
    const int vb = r.chance(30) ? r.in(15, 64) : r.in(1, 14);
    const P f = make(p, a, size_t(vb));
    info(*f, p, a);
    const size_t n = f->num_vars(), m = f->num_objectives();
    const int grid = gridof(p);
    for (int t = 0; t < 4; t++)
    {
        Ints k; Chromosome<RealGene> x;
        const int mode = r.in(0, 3); const bool tail = r.chance(30);
        for (size_t i = 0; i < n; i++)
        {
            const double lo = f->bounds()[i].lower(), hi = f->bounds()[i].upper();
            int l = int(std::ceil(lo * grid)), h = int(std::floor(hi * grid)), z = mode == 0 ? (r.chance(50) ? l : h) : mode == 1 ? r.in(std::max(l, -grid), std::min(h, grid)) : r.in(l, h);
            if (tail && ((dtlz && i >= m - 1) || (p[0] == 'Z' && i > 0))) z = (p == "DTLZ6" || p == "DTLZ7" || p[0] == 'Z') ? 0 : 32;
            k.push_back(z);
            x.push_back(coord(p, i, m, z));
        }
        tr::ev("val", "p", p, "m", m, "k", k, "f", fxs((*f)(x)));
    }
    // the best of many points of the domain relative to the ideal point
    std::vector<double> over(m, -1e9);
    for (int t = 0; t < 60; t++)
    {
        Chromosome<RealGene> x; const int mode = r.in(0, 3);
        for (size_t i = 0; i < n; i++)
        {
            const double lo = f->bounds()[i].lower(), hi = f->bounds()[i].upper(), u = double(r.next() >> 11) / 9007199254740992.0;
            double v = lo + (hi - lo) * u;
            if (mode == 1) v = f->optimum()[i] + (u - 0.5) * 0.01;
            else if (mode == 2 && r.chance(50)) v = r.chance(50) ? lo : hi;
            else if (mode == 3 && r.chance(70)) v = f->optimum()[i];
            x.push_back(std::clamp(v, lo, hi));
        }
        auto v = (*f)(x);
        for (size_t j = 0; j < m; j++) over[j] = j < v.size() ? std::max(over[j], std::isnan(v[j]) ? 1e9 : v[j] - f->ideal_point()[j]) : 1e9;
    }
    tr::ev("best", "p", p, "a", a, "over", fxs(over, 1e6));
    // a binary chromosome
    const size_t blen = static_cast<const FitnessFunctionBase<BinaryGene>&>(*f).chrom_len();
    Chromosome<BinaryGene> b(n * size_t(vb)); Ints bits; const int mode = r.in(0, 3);
    for (auto& g : b) { g = BinaryGene(mode == 0 ? 0 : mode == 1 ? 1 : r.in(0, 1)); bits.push_back(g); }
    Chromosome<RealGene> x(n);
    for (size_t i = 0; i < n; i++)
    {
        long double v = 0; for (int j = 0; j < vb; j++) v = v * 2 + b[i * size_t(vb) + size_t(j)];
        const double lo = f->bounds()[i].lower(), hi = f->bounds()[i].upper();
        x[i] = std::clamp(double(lo + (long double)(hi - lo) * v / (std::pow(2.0L, vb) - 1)), lo, hi);
    }
    const auto fb = (*f)(b), fr = (*f)(x); double diff = fb.size() == fr.size() ? 0 : 1;
    for (size_t j = 0; j < std::min(fb.size(), fr.size()); j++) diff = std::max(diff, std::abs(fb[j] - fr[j]) / (1 + std::abs(fr[j])));
    tr::ev("bin", "p", p, "vb", vb, "bits", bits, "blen", blen, "lims", lims(f->bounds(), 16384.0), "pt", fxs(x), "diff", (long long)(diff * 1e6));
}
static void zdt5(tr::Rnd& r)
{
    const size_t a = size_t(r.in(2, 8)); ZDT5 f(a);
    info(f, "ZDT5", a);
    std::vector<double> over(2, -1e9);
    for (int t = 0; t < 6; t++)
    {
        Chromosome<BinaryGene> x(f.num_vars()); Ints k; const int p = r.in(0, 100); int z = 0;
        for (size_t i = 0; i < x.size(); i++) { if (i % 5 == 0) z = r.in(0, 3); x[i] = BinaryGene(z == 0 ? 1 : r.chance(p)); k.push_back(x[i]); }
        auto v = f(x); for (size_t j = 0; j < 2; j++) over[j] = std::max(over[j], v.at(j) - f.ideal_point()[j]);
        tr::ev("val", "p", "ZDT5", "m", 2, "k", k, "f", fxs(v));
    }
    tr::ev("best", "p", "ZDT5", "a", a, "over", fxs(over, 1e6));
}
static void tsp(tr::Rnd& r)
{
    const int n = r.in(2, 14), w = r.chance(30) ? 3 : r.in(1, 100);
    std::vector<TSP::Coords> c; Lims cs;
    for (int i = 0; i < n; i++) { int x = r.in(-w, w), y = r.in(-w, w); c.push_back({ double(x), double(y) }); cs.push_back({ x, y }); }
    const int given = -r.in(0, 1000); TSP f(c, given);
    for (int t = 0; t < 3; t++)
    {
        Chromosome<PermutationGene> p(size_t(n - 1)); std::iota(p.begin(), p.end(), 0);
        for (size_t i = p.size(); i > 1; i--) std::swap(p[i - 1], p[size_t(r.in(0, int(i) - 1))]);
        tr::ev("tsp", "c", cs, "t", p, "f", fxs(f(p)), "nvars", f.num_vars(), "nobj", f.num_objectives(), "lims", lims(f.bounds(), 1.0), "opt", fx(f.optimal_value()[0], 1.0), "ideal", fxs(f.ideal_point(), 1.0), "nadir", fxs(f.nadir_point(), 1.0), "given", given);
    }
}
template<typename F, typename C> void inst(const F& f, const char* p, const C& cities, tr::Rnd& r)
{
    const size_t n = cities.size();
    auto d = [&](size_t a, size_t b) { return std::hypot(cities[a][0] - cities[b][0], cities[a][1] - cities[b][1]); };
    std::vector<size_t> t{ n - 1 }; std::vector<bool> used(n); used[n - 1] = true;         // nearest neighbour or random, then 2-opt
    const bool good = r.chance(70);
    while (t.size() < n) { size_t b = n; for (size_t i = 0; i < n; i++) if (!used[i] && (b == n || (good ? d(t.back(), i) < d(t.back(), b) : r.chance(20)))) b = i; used[b] = true; t.push_back(b); }
    if (good) for (int z = 0; z < 6; z++) for (size_t i = 1; i + 1 < n; i++) for (size_t j = i + 1; j < n; j++)
    {
        size_t e = (j + 1) % n; if (d(t[i - 1], t[i]) + d(t[j], t[e]) > d(t[i - 1], t[j]) + d(t[i], t[e]) + 1e-9) std::reverse(t.begin() + long(i), t.begin() + long(j) + 1);
    }
    long double len = 0; for (size_t i = 0; i < n; i++) len += d(t[i], t[(i + 1) % n]);
    Chromosome<PermutationGene> c(t.begin() + 1, t.end());
    const auto v = f(c);
    tr::ev("inst", "p", p, "cities", n, "nvars", f.num_vars(), "opt", fx(f.optimal_value()[0], 1.0), "ideal", fxs(f.ideal_point(), 1.0), "nadir", fxs(f.nadir_point(), 1.0), "f", fx(v.size() == 1 ? v[0] : 0.0, 1000.0), "len", fx(double(-len), 1000.0), "good", good);
}
static void insts(tr::Rnd& r)
{
    switch (r.in(0, 6))
    {
        case 0: inst(TSP52(), "TSP52", tsp52_coords, r); break; case 1: inst(TSP76(), "TSP76", tsp76_coords, r); break; case 2: inst(TSP124(), "TSP124", tsp124_coords, r); break;
        case 3: inst(TSP152(), "TSP152", tsp152_coords, r); break; case 4: inst(TSP226(), "TSP226", tsp226_coords, r); break; case 5: inst(TSP299(), "TSP299", tsp299_coords, r); break;
        default: inst(TSP439(), "TSP439", tsp439_coords, r);
    }
}
static void str(tr::Rnd& r)
{
    std::string t; Ints ts; for (int i = r.in(1, 12); i--;) { t += char(r.in(32, 126)); ts.push_back(t.back()); }
    StringFinder f(t);
    for (int q = 0; q < 3; q++)
    {
        Chromosome<IntegerGene> c; Ints cs; const int p = r.in(0, 100);
        for (char z : t) { c.push_back(r.chance(p) ? IntegerGene(z) : IntegerGene(r.in(32, 126))); cs.push_back(c.back()); }
        tr::ev("str", "t", ts, "c", cs, "f", fxs(f(c), 1.0), "nvars", f.num_vars(), "nobj", f.num_objectives(), "opt", fx(f.optimal_value()[0], 1.0), "ideal", fxs(f.ideal_point(), 1.0), "nadir", fxs(f.nadir_point(), 1.0), "lims", lims(f.bounds(), 1.0));
    }
}
int main(int argc, char** argv)
{
    tr::Args a = tr::parse(argc, argv);
    int cnt = 0; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--n")) cnt = atoi(argv[i + 1]);
    const std::vector<std::string> gen = a.ops.empty() ? std::vector<std::string>{} : tr::lines(a.ops);
    return tr::run(a, long(gen.size()) + long(cnt) * (a.thorough ? 8 : 1), [&](long k)
    {
        tr::Rnd r(a.seed * 1000003 + uint64_t(k) * 31);
        tr::begin(k, tr::obj("fam", "bench"));
        if (k < long(gen.size()))
        {
            std::vector<int> v; const char* c = gen[size_t(k)].c_str(); char* e;
            for (long z = strtol(c, &e, 10); e != c; z = strtol(c, &e, 10)) { v.push_back(int(z)); c = e; }
            return given(v);
        }
        switch (r.in(0, 19)) { case 0: zdt5(r); break; case 1: case 2: tsp(r); break; case 3: insts(r); break; case 4: str(r); break; default: real(r); }
    });
}
