// Runs whose populations follow a prescribed fitness history: stop conditions and metrics are observed.
#include "trace.hpp"
#include <gapp.hpp>
#include <cmath>
#include <memory>
using namespace gapp;
using tr::Raw;

struct Scn {
    int n = 2, max = 4, d = 1;
    bool dyn = true, real = false;
    std::vector<std::vector<std::vector<int>>> tab;       // [generation][slot][objective]
    int epoch = 0; size_t slot = 0; int same = 0;
    uint64_t salt = 0;
};
static Scn* S = nullptr;

struct F final : FitnessFunctionBase<IntegerGene> {
    F() : FitnessFunctionBase<IntegerGene>(2, S->dyn ? Type::Dynamic : Type::Static) {}
    FitnessVector invoke(const Chromosome<IntegerGene>&) const override
    {
        const auto& rows = S->tab[std::min(size_t(S->epoch), S->tab.size() - 1)];
        const auto& f = rows[S->slot++ % rows.size()];
        return FitnessVector(f.begin(), f.end());
    }
};
struct Alg final : algorithm::Algorithm {
    size_t k = 0;
    size_t selectImpl(const GaInfo&, const FitnessMatrix& fm) const override { return S->slot % fm.size(); }
    small_vector<size_t> nextPopulationImpl(const GaInfo&, const FitnessMatrix& fm) override
    {
        small_vector<size_t> r; const size_t n = fm.size() / 2;
        for (size_t i = 0; i < n; i++) r.push_back(n + i);
        return r;
    }
};

// A type erased condition, so that arbitrary expressions can be built at run time from the library's own operators.
struct Node final : stopping::StopCondition {
    std::shared_ptr<stopping::StopCondition> p;
    template<typename C> static Node of(C c) { Node n; n.p = std::make_shared<C>(std::move(c)); return n; }
    void initialize(const GaInfo& ga) override { p->initialize(ga); }
    bool stop_condition(const GaInfo& ga) override { return (*p)(ga); }
};
struct Log final : stopping::StopCondition {
    Node e;
    void initialize(const GaInfo& ga) override { e.initialize(ga); }
    bool stop_condition(const GaInfo& ga) override { bool r = e(ga); tr::ev("stop", "r", r); return false; }
};

struct Tree { std::vector<Raw> nodes; int users = 0; };
static double dval(int d16, int tiny) { return d16 / 16.0 + tiny * 1e-6; }
static Node leaf(tr::Rnd& r, Tree& t, bool user)
{
    int k = r.in(0, user ? 5 : 3);
    int p = r.chance(30) ? 0 : r.in(1, 3);
    int d16 = 0, tiny = r.chance(25) ? -1 : 1;
    const bool pow2 = (S->n & (S->n - 1)) == 0;
    if (pow2 && r.chance(50)) { tiny = 0; d16 = r.pick(*new std::vector<int>{ 0, 4, 8, 16, 32, -16, -8 }); }
    if (!pow2 && tiny == 0) tiny = 1;
    const bool set = r.chance(40), def = r.chance(10);
    if (def) { p = 0; d16 = 0; tiny = 1; }
    if (k == 0)
    {
        int a = r.in(0, S->n * S->max + 1);
        t.nodes.push_back(tr::obj("k", "evals", "a", a));
        stopping::FitnessEvals c(set ? 3 : size_t(a)); if (set) c.max_fitness_evals(size_t(a));
        return Node::of(c);
    }
    if (k == 1)
    {
        std::vector<int> t2; FitnessVector th;
        for (int i = 0; i < S->d; i++) { if (r.chance(8)) { t2.push_back(-1000000); th.push_back(-math::inf<double>); } else { int v = r.in(-3, 14); t2.push_back(v); th.push_back(v / 2.0); } }
        t.nodes.push_back(tr::obj("k", "value", "t", t2));
        if (set) { stopping::FitnessValue c(FitnessVector(size_t(S->d), 0.0)); c.fitness_threshold(th); return Node::of(c); }
        return Node::of(stopping::FitnessValue(th));
    }
    if (k == 2)
    {
        t.nodes.push_back(tr::obj("k", "mean", "p", p, "d", d16, "t", tiny));
        stopping::FitnessMeanStall c = def ? stopping::FitnessMeanStall() : set ? stopping::FitnessMeanStall(1, 0.5) : stopping::FitnessMeanStall(size_t(p), dval(d16, tiny));
        if (set && !def) { c.delta(dval(d16, tiny)); c.patience(size_t(p)); }
        return Node::of(c);
    }
    if (k == 3)
    {
        t.nodes.push_back(tr::obj("k", "best", "p", p, "d", d16, "t", tiny));
        stopping::FitnessBestStall c = def ? stopping::FitnessBestStall() : set ? stopping::FitnessBestStall(1, 0.5) : stopping::FitnessBestStall(size_t(p), dval(d16, tiny));
        if (set && !def) { c.patience(size_t(p)); c.delta(dval(d16, tiny)); }
        return Node::of(c);
    }
    if (k == 4 && r.chance(20)) { t.nodes.push_back(tr::obj("k", "none")); return Node::of(stopping::NoEarlyStop{}); }
    const int id = t.users++;
    t.nodes.push_back(tr::obj("k", "user", "u", id));
    const uint64_t salt = r.next(); const int pct = r.in(5, 50);
    return Node::of(stopping::Lambda([id, salt, pct](const GaInfo& ga)
    {
        tr::Rnd q(salt + ga.generation_cntr() * 977 + S->salt);
        bool b = q.chance(pct);
        tr::ev("user", "u", id, "r", b);
        return b;
    }));
}
static Node expr(tr::Rnd& r, Tree& t, int depth)
{
    if (depth == 0 || r.chance(20)) return leaf(r, t, true);
    switch (r.in(0, 4))
    {
        case 0: { Node a = expr(r, t, depth - 1); int i = int(t.nodes.size()); t.nodes.push_back(tr::obj("k", "not", "l", i)); return Node::of(!a); }
        case 1: case 2: { Node a = expr(r, t, depth - 1); int i = int(t.nodes.size()); Node b = expr(r, t, depth - 1); int j = int(t.nodes.size()); t.nodes.push_back(tr::obj("k", "and", "l", i, "r", j)); return Node::of(a && b); }
        default: { Node a = expr(r, t, depth - 1); int i = int(t.nodes.size()); Node b = expr(r, t, depth - 1); int j = int(t.nodes.size()); t.nodes.push_back(tr::obj("k", "or", "l", i, "r", j)); return Node::of(a || b); }
    }
}

static long rnd(double x) { return std::isfinite(x) && std::abs(x) < 1e8 ? std::lround(x) : 9999999; }
static std::vector<long> ints(auto&& row, double scale = 1, bool sq = false) { std::vector<long> r; for (double x : row) r.push_back(sq ? (x < 0 ? -1 : rnd(x * x * scale)) : rnd(x * scale)); return r; }
static std::vector<std::vector<long>> mat(auto&& m, double scale = 1, bool sq = false) { std::vector<std::vector<long>> r; for (size_t i = 0; i < m.size(); i++) r.push_back(ints(m[i], scale, sq)); return r; }

// What every metric holds now. `null` lists the metrics that cannot be found.
static Raw metrics_of(const GaInfo& ga)
{
    const double m = 1000.0 * S->n, v = 1000.0 * S->n * std::max(1, S->n - 1);
    std::string o = "{"; std::vector<std::string> null;
    auto add = [&](const char* name, auto* p, auto&& f) { if (!p) { null.push_back(name); return; } if (o.size() > 1) o += ','; tr::put(o, name); o += ':'; tr::put(o, f(*p)); };
    add("min", ga.get_metric_if<metrics::FitnessMin>(), [&](auto& x) { return mat(x); });
    add("max", ga.get_metric_if<metrics::FitnessMax>(), [&](auto& x) { return mat(x); });
    add("mean", ga.get_metric_if<metrics::FitnessMean>(), [&](auto& x) { return mat(x, m); });
    add("var", ga.get_metric_if<metrics::FitnessVariance>(), [&](auto& x) { return mat(x, v); });
    add("sd", ga.get_metric_if<metrics::FitnessStdDev>(), [&](auto& x) { return mat(x, v, true); });
    add("nadir", ga.get_metric_if<metrics::NadirPoint>(), [&](auto& x) { return mat(x); });
    add("evals", ga.get_metric_if<metrics::FitnessEvaluations>(), [&](auto& x) { std::vector<long> r; for (size_t i = 0; i < x.size(); i++) r.push_back(long(x[i])); return r; });
    add("hv", ga.get_metric_if<metrics::Hypervolume>(), [&](auto& x) { return ints(x, 32); });
    add("ahv", ga.get_metric_if<metrics::AutoHypervolume>(), [&](auto& x) { return ints(x, 32); });
    if (o.size() > 1) o += ',';
    o += "\"null\":"; tr::put(o, null); o += '}';
    return { o };
}

static std::vector<std::string> track(IntegerGA& ga, int set, const FitnessVector& ref)
{
    using namespace metrics;
    switch (set)
    {
        case 0: ga.track(FitnessMin{}, FitnessMax{}, FitnessMean{}, FitnessVariance{}, FitnessStdDev{}, NadirPoint{}, FitnessEvaluations{}); return { "min", "max", "mean", "var", "sd", "nadir", "evals" };
        case 1: ga.track(FitnessEvaluations{}, FitnessStdDev{}, NadirPoint{}); return { "evals", "sd", "nadir" };
        case 2: ga.track(FitnessMax{}); return { "max" };
        case 3: ga.track(); return {};
        case 4: ga.track(Hypervolume(ref), AutoHypervolume{}); return { "hv", "ahv" };
        case 5: ga.track(AutoHypervolume{}, FitnessMin{}); return { "ahv", "min" };
        case 6: ga.track(FitnessMean{}, Hypervolume(ref), FitnessVariance{}); return { "mean", "hv", "var" };
    }
    return {};
}

static void history(tr::Rnd& r, int lo, int hi)
{
    S->tab.clear();
    std::vector<int> base(size_t(S->d)), dir(size_t(S->d));
    for (int& b : base) b = r.in(lo, hi);
    const int style = r.in(0, 3), noise = r.in(0, 2);
    for (int g = 0; g < S->max; g++)
    {
        std::vector<std::vector<int>> rows;
        for (int i = 0; i < S->n; i++)
        {
            std::vector<int> f;
            for (int j = 0; j < S->d; j++) f.push_back(style == 3 ? r.in(lo, hi) : std::clamp(base[size_t(j)] + (noise ? r.in(-noise, noise) : 0), lo, hi));
            rows.push_back(f);
        }
        S->tab.push_back(rows);
        for (int j = 0; j < S->d; j++)
        {
            int step = style == 0 ? r.in(0, 1) : style == 1 ? r.in(-1, 1) : r.chance(70) ? 0 : r.in(-2, 2);
            base[size_t(j)] = std::clamp(base[size_t(j)] + step, lo, hi);
        }
    }
}

static void scen(tr::Rnd& r, const std::string& fam, long k)
{
    static Scn s; S = &s;
    const bool mets = fam == "met" || fam == "hv";
    tr::begin(k, tr::obj("fam", fam));
    std::unique_ptr<IntegerGA> ga;
    const int runs = r.in(1, 3);
    Tree t; Node e;
    for (int j = 0; j < runs; j++)
    {
        s = Scn{};
        s.salt = r.next() % 100000;
        s.n = r.chance(10) ? 1 : r.chance(60) ? (1 << r.in(1, 3)) : r.in(2, 7);
        s.max = r.in(1, 9);
        if (fam == "hv") s.max = r.chance(15) ? r.in(6, 14) : r.in(1, 5);
        s.d = r.chance(50) ? 1 : r.in(2, 3);
        if (fam == "hv") { s.d = r.in(1, r.chance(10) ? 5 : 4); s.n = r.in(1, s.d >= 4 ? 4 : r.chance(25) ? 12 : 6); }
        s.dyn = r.chance(70); s.real = r.chance(40);
        if (j > 0 && !mets) { s.n = int(ga->population_size()); s.d = int(ga->num_objectives()); }     // the same condition is used again
        const bool wide = fam == "hv" && s.d <= 2 && r.chance(30);
        history(r, fam == "hv" ? -2 : -3, wide ? 9 : fam == "hv" ? 2 : 7);
        if (fam == "hv" && s.d >= 4) for (auto& g : s.tab) for (auto& row : g) for (int& x : row) x = std::clamp(x, 0, s.d == 4 ? 2 : 1);
        const bool fresh = j == 0;
        if (fresh) { ga = std::make_unique<IntegerGA>(size_t(s.n)); }
        ga->population_size(size_t(s.n));
        ga->algorithm(Alg{});
        ga->crossover_method([](const GA<IntegerGene>&, const Candidate<IntegerGene>& a, const Candidate<IntegerGene>& b) { return CandidatePair<IntegerGene>{ a, b }; });
        ga->mutation_method([](const GA<IntegerGene>&, const Candidate<IntegerGene>&, Chromosome<IntegerGene>& c) { if ((S->same++ * 7 + S->salt) % 4) c[0]++; });
        const bool newTree = fresh || (!mets && r.chance(20));
        if (newTree)
        {
            t = Tree{};
            e = mets ? Node::of(stopping::NoEarlyStop{}) : fam == "leaf" ? leaf(r, t, false) : expr(r, t, r.in(1, 4));
            if (mets) t.nodes.push_back(tr::obj("k", "none"));
        }
        if (mets) s.real = true;
        int how = 0; static bool wasReal = false;
        const bool keep = !fresh && !newTree && r.chance(60);              // the solver's own condition, with whatever it remembers
        if (keep) s.real = wasReal;
        wasReal = s.real;
        if (keep) {}
        else if (s.real) { how = r.in(0, 1); if (mets && r.chance(30)) { ga->stop_condition(nullptr); } else ga->stop_condition(e); }
        else { Log lg; lg.e = e; ga->stop_condition(std::move(lg)); }
        static std::vector<int> r2; static int set = 0; static std::vector<std::string> tracked;
        const bool retrack = fresh || (set >= 4 && set != 5 && int(r2.size()) != s.d) || r.chance(50);      // or the same metrics again
        FitnessVector ref;
        if (retrack || set == 5) { r2.clear(); for (int i = 0; i < s.d; i++) r2.push_back(r.in(-10, -5)); }
        for (int h : r2) ref.push_back(h / 2.0);
        if (retrack) { set = fam == "met" ? r.in(0, 3) : fam == "hv" ? r.in(4, 6) : 2; tracked = track(*ga, set, ref); }
        ga->on_generation_end([mets](const GaInfo& g)
        {
            if (mets) tr::ev("gen", "g", g.generation_cntr(), "e", g.num_fitness_evals(), "fm", mat(g.fitness_matrix()), "met", metrics_of(g));
            else tr::ev("gen", "g", g.generation_cntr(), "e", g.num_fitness_evals(), "fm", mat(g.fitness_matrix()));
            S->epoch++; S->slot = 0;
        });
        tr::ev("run", "n", s.n, "d", s.d, "max", s.max, "real", s.real, "nodes", t.nodes, "users", t.users, "tracked", tracked, "ref", r2);
        BoundsVector<IntegerGene> bv(2, Bounds<IntegerGene>(0, 1000000));
        try
        {
            const bool one = r.chance(30);
            if (!one) ga->max_gen(size_t(s.max)); else ga->max_gen(500);
            if (one) ga->solve(F{}, bv, size_t(s.max)); else ga->solve(F{}, bv);
            tr::ev("ret", "g", ga->generation_cntr(), "met", metrics_of(*ga));
        }
        catch (...) { tr::ev("exception"); }
    }
}

// "p delta d v..." from StopMC: both kinds of stall conditions on that history, populations of one or two candidates.
static void script(const std::string& line, long k)
{
    std::vector<int> v; const char* c = line.c_str(); char* e;
    for (long x = strtol(c, &e, 10); e != c; x = strtol(c, &e, 10)) { v.push_back(int(x)); c = e; }
    static Scn s; S = &s;
    tr::begin(k, tr::obj("fam", "script"));
    const int p = v[0], dl = v[1] * 16, d = v[2];
    for (int kind = 0; kind < 2; kind++) for (int real = 0; real < 2; real++)
    {
        s = Scn{};
        s.n = kind + 1; s.d = d; s.max = int(v.size() - 3) / d + real; s.real = real; s.dyn = true;
        for (size_t i = 3; i + size_t(d) <= v.size(); i += size_t(d))
        {
            std::vector<int> row(v.begin() + long(i), v.begin() + long(i) + d);
            s.tab.push_back(std::vector<std::vector<int>>(size_t(s.n), row));
        }
        Tree t; t.nodes.push_back(tr::obj("k", kind ? "mean" : "best", "p", p, "d", dl, "t", 0));
        IntegerGA ga(size_t(s.n));
        ga.algorithm(Alg{});
        ga.crossover_method([](const GA<IntegerGene>&, const Candidate<IntegerGene>& a, const Candidate<IntegerGene>& b) { return CandidatePair<IntegerGene>{ a, b }; });
        ga.mutation_method([](const GA<IntegerGene>&, const Candidate<IntegerGene>&, Chromosome<IntegerGene>& c) { c[0]++; });
        Node e = kind ? Node::of(stopping::FitnessMeanStall(size_t(p), double(v[1]))) : Node::of(stopping::FitnessBestStall(size_t(p), double(v[1])));
        if (real) ga.stop_condition(e); else { Log lg; lg.e = e; ga.stop_condition(std::move(lg)); }
        ga.on_generation_end([](const GaInfo& g) { tr::ev("gen", "g", g.generation_cntr(), "e", g.num_fitness_evals(), "fm", mat(g.fitness_matrix())); S->epoch++; S->slot = 0; });
        ga.track(metrics::FitnessMax{});
        tr::ev("run", "n", s.n, "d", s.d, "max", s.max, "real", s.real, "nodes", t.nodes, "users", 0, "tracked", std::vector<std::string>{ "max" }, "ref", std::vector<int>{});
        BoundsVector<IntegerGene> bv(2, Bounds<IntegerGene>(0, 1000000));
        ga.max_gen(size_t(s.max));
        ga.solve(F{}, bv);
        tr::ev("ret", "g", ga.generation_cntr(), "met", metrics_of(ga));
    }
}

int main(int argc, char** argv)
{
    tr::Args a = tr::parse(argc, argv);
    std::string fam = "leaf"; int cnt = 0;
    for (int i = 1; i < argc; i++) { if (!strcmp(argv[i], "--fam")) fam = argv[i + 1]; if (!strcmp(argv[i], "--n")) cnt = atoi(argv[i + 1]); }
    execution_threads(1);
    const std::vector<std::string> gen = a.ops.empty() ? std::vector<std::string>{} : tr::lines(a.ops);
    return tr::run(a, long(gen.size()) + long(cnt) * (a.thorough ? 10 : 1), [&](long k)
    {
        if (k < long(gen.size())) { script(gen[size_t(k)], k); return; }
        tr::Rnd r(a.seed * 1000003 + uint64_t(k) * 31 + fam.size());
#ifdef VS_SHIM
        vs::scenario(r.next(), [&] { rng::prng.seed(uint64_t(a.seed * 7919 + k)); execution_threads(size_t(r.in(1, 4))); scen(r, fam, k); execution_threads(1); });
#else
        rng::prng.seed(uint64_t(a.seed * 7919 + k));
        scen(r, fam, k);
#endif
    });
}
