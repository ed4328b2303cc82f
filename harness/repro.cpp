// Seeded runs of the same configuration, with anything in between, and what can be observed of them (digests).
#include "ops.hpp"
#include <atomic>
#include <thread>
#include <chrono>
static int dig(uint64_t h) { return int(h & 0x3FFFFFFF); }
static uint64_t hv(const FitnessVector& f) { uint64_t h = 11; for (double x : f) { uint64_t b; memcpy(&b, &x, 8); h = mixh(h, b); } return h; }
template<typename T> uint64_t hcand(const Candidate<T>& c) { return mixh(hashc(c.chromosome), mixh(hv(c.fitness), c.is_evaluated)); }

struct Boom {};
static std::atomic<uint64_t> salt{ 0 };                          // perturbs the timing of every call differently
static void jitter(uint64_t h) { switch (mixh(h, salt.fetch_add(1)) % 23) { case 0: std::this_thread::yield(); break; case 1: std::this_thread::sleep_for(std::chrono::microseconds(15)); break; } }

// A configuration is a function of its number only.
template<typename T> struct Conf
{
    uint64_t id; bool keep_solver = false; std::unique_ptr<typename Enc<T>::GAT> held;
    size_t len; int nobj, n, gens, cache; bool dyn, noisy, keep, rep; BoundsVector<T> b; Population<T> init;
    explicit Conf(uint64_t id) : id(id)
    {
        tr::Rnd r(id);
        len = size_t(r.chance(10) ? 1 : r.in(2, 12)); b = bounds<T>(r, len, r.chance(60));
        nobj = r.in(1, 3); n = r.in(2, 14); gens = r.in(1, 8); cache = r.in(0, 2); dyn = r.chance(20); noisy = r.chance(20); keep = r.chance(30); rep = r.chance(20);
        if (r.chance(30)) for (int i = r.in(1, n + 1); i--;) init.push_back(Candidate<T>(randchrom<T>(r, len, b)));
    }
    std::unique_ptr<typename Enc<T>::GAT> make() const
    {
        tr::Rnd r(id + 77);
        auto ga = std::make_unique<typename Enc<T>::GAT>(size_t(n));
        if (r.chance(80)) { auto x = xop<T>(r, r.in(0, nxo<T>() - 1), r.chance(30) ? 1.0 : 0.75); ga->crossover_method(std::move(x.op)); }
        if (r.chance(80)) { auto m = mop<T>(r, r.in(0, nmu<T>() - 1), r.chance(30) ? 16 : r.in(0, 15)); ga->mutation_method(std::move(m.op)); }
        namespace a = algorithm;
        const int q = r.in(0, 9);
        if (nobj > 1) switch (q % 5)
        {
            case 0: ga->algorithm(a::NSGA2{}); break;
            case 1: ga->algorithm(a::NSGA3{}); break;
            case 2: ga->algorithm(a::NSGA3{ a::reflines::quasirandomSimplexPointsRoot }); break;
            case 3: ga->algorithm(a::NSGA3{ [](size_t d, size_t k) { return a::reflines::pickSparseSubset(d, k, a::reflines::quasirandomSimplexPointsLog, 3); } }); break;
            default: break;
        }
        else if (q)
        {
            a::SingleObjective so;
            switch (q % 5) { case 0: so.selection_method(selection::Roulette{}); break; case 1: so.selection_method(selection::Tournament{ size_t(r.in(1, 2)) }); break;
                             case 2: so.selection_method(selection::Rank{}); break; case 3: so.selection_method(selection::Sigma{}); break; default: so.selection_method(selection::Boltzmann{}); }
            switch (r.in(0, 2)) { case 0: so.replacement_method(replacement::KeepChildren{}); break; case 1: so.replacement_method(replacement::Elitism{ size_t(r.in(1, 2)) }); break; default: so.replacement_method(replacement::KeepBest{}); }
            ga->algorithm(std::move(so));
        }
        namespace s = stopping;
        switch (r.in(0, 5))
        {
            case 0: ga->stop_condition(s::FitnessBestStall{ size_t(r.in(1, 4)) }); break;
            case 1: ga->stop_condition(s::FitnessMeanStall{ size_t(r.in(1, 4)), 0.5 }); break;
            case 2: ga->stop_condition(s::FitnessEvals{ size_t(r.in(5, 80)) }); break;
            case 3: ga->stop_condition(s::FitnessBestStall{ 2 } || s::FitnessEvals{ 60 }); break;
            default: break;
        }
        ga->cache_size(size_t(cache)); ga->keep_all_optimal_solutions(keep);
        if (rep) ga->repair_function([](const auto&, const Chromosome<T>& c) { auto d = c; if (!d.empty() && hashc(c) % 5 == 0) { if constexpr (std::is_same_v<T, PermutationGene>) std::swap(d.front(), d.back()); else d.front() = d.front(); } return d; });
        if (nobj == 1) ga->track(metrics::FitnessMean{}, metrics::FitnessMax{}); else ga->track(metrics::FitnessMean{}, metrics::AutoHypervolume{}, metrics::NadirPoint{});
        return ga;
    }
    // fail: the number of the fitness call that throws
    void solve(uint64_t seed, bool fresh, bool record, int fail = -1)
    {
        std::mutex mx; uint64_t fits = 0; int cnt = 0, calls = 0;
        auto f = [&](const Chromosome<T>& c)
        {
            jitter(hashc(c));
            std::lock_guard _(mx); fits += mixh(hashc(c), 5); cnt++;
            if (++calls == fail) throw Boom{};
        };
        struct Noisy final : FitnessFunctionBase<T>
        {
            const Conf* k; std::function<void(const Chromosome<T>&)> f;
            Noisy(const Conf* k, std::function<void(const Chromosome<T>&)> f) : FitnessFunctionBase<T>(k->len, k->dyn ? FitnessFunctionInfo::Type::Dynamic : FitnessFunctionInfo::Type::Static), k(k), f(std::move(f)) {}
            FitnessVector invoke(const Chromosome<T>& c) const override
            {
                f(c);
                FitnessVector v; for (int j = 0; j < k->nobj; j++) v.push_back(double((hashc(c) >> (8 * j)) % 20) + (k->noisy ? rng::randomInt(0, 9) + rng::randomBool() + rng::randomNormal() + rng::randomPoisson(30.0) : 0));
                return v;
            }
        };
        std::unique_ptr<typename Enc<T>::GAT> mine;
        auto* ga = &held;
        if (fresh || !held) { mine = make(); ga = &mine; }
        const auto gen = [&](const GA<T>& g)
        {
            uint64_t h = 1; for (auto& c : g.population()) h = mixh(h, hcand(c));
            std::lock_guard _(mx);
            if (record) tr::ev("gen", "d", Ints{ dig(h), dig(fits), cnt, int(g.num_fitness_evals()) });
            fits = 0; cnt = 0;
        };
        (*ga)->on_generation_end([&](const GaInfo& g) { gen(static_cast<const GA<T>&>(g)); });
        if (seed) rng::prng.seed(seed);
        try
        {
            Candidates<T> s;
            if constexpr (is_bounded<T>) s = (*ga)->solve(Noisy(this, f), Bounds_(), size_t(gens), init); else s = (*ga)->solve(Noisy(this, f), size_t(gens), init);
            uint64_t h = 1, m = 1; for (auto& c : s) h = mixh(h, hcand(c));
            auto& mean = (*ga)->template get_metric<metrics::FitnessMean>(); for (size_t i = 0; i < mean.size(); i++) for (double x : mean[i]) m = mixh(m, uint64_t(int64_t(x * 1024)));
            if (nobj > 1) for (double x : (*ga)->template get_metric<metrics::AutoHypervolume>()) m = mixh(m, uint64_t(int64_t(x)));
            if (record) tr::ev("ret", "d", Ints{ dig(h), int(s.size()), dig(m), int((*ga)->num_fitness_evals()) });
        }
        catch (const Boom&) {}
        if (mine && !held) held = std::move(mine);
    }
    BoundsVector<T> Bounds_() const { return b; }
};
template<typename T> void noise_run(tr::Rnd& r)
{
    Conf<T> c(r.next());
    c.solve(r.chance(50) ? r.next() | 1 : 0, true, false, r.chance(40) ? r.in(1, 20) : -1);
}
static void noise(tr::Rnd& r)
{
    switch (r.in(0, 6))
    {
        case 0: for (int i = r.in(0, 5); i--;) { rng::randomBool(); rng::randomNormal(); rng::randomPoisson(double(r.in(1, 60))); rng::randomInt(0, 5); rng::sampleUnique(0, 50, 7); } break;
        case 1: noise_run<BinaryGene>(r); break;
        case 2: noise_run<RealGene>(r); break;
        case 3: noise_run<PermutationGene>(r); break;
        case 4: noise_run<IntegerGene>(r); break;
        case 5: std::thread([] { rng::randomBool(); rng::randomNormal(); }).join(); break;     // registers last, and ends
        default: execution_threads(execution_threads());
    }
}
template<typename T> void scen(tr::Rnd& r)
{
    execution_threads(size_t(r.in(1, 6)));
    std::vector<std::unique_ptr<Conf<T>>> cs;
    for (int i = r.in(1, 2); i--;) cs.push_back(std::make_unique<Conf<T>>(r.next()));
    const uint64_t seeds[2] = { r.next() | 1, r.chance(20) ? 1 : r.next() | 1 };
    rng::randomBool();                                             // this thread's stream exists
    for (int k = r.in(2, 5); k--;)
    {
        const int c = r.in(0, int(cs.size()) - 1), s = r.in(0, 99) < 70 ? 0 : 1;
        tr::ev("run", "key", Ints{ c, s }, "enc", Enc<T>::name, "n", cs[size_t(c)]->n, "nobj", cs[size_t(c)]->nobj, "thr", execution_threads(), "dyn", cs[size_t(c)]->dyn, "noisy", cs[size_t(c)]->noisy);
        cs[size_t(c)]->solve(seeds[s], r.chance(50), true);
        for (int z = r.in(0, 2); z--;) noise(r);
    }
    execution_threads(1);
}
int main(int argc, char** argv)
{
    tr::Args a = tr::parse(argc, argv);
    int cnt = 0;
    for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--n")) cnt = atoi(argv[i + 1]);
    return tr::run(a, long(cnt) * (a.thorough ? 8 : 1), [&](long k)
    {
        tr::Rnd r(a.seed * 1000003 + uint64_t(k) * 31);
        tr::begin(k, tr::obj("fam", "repro"));
        const auto one = [&] { switch (r.in(0, 3)) { case 0: scen<BinaryGene>(r); break; case 1: scen<IntegerGene>(r); break; case 2: scen<PermutationGene>(r); break; default: scen<RealGene>(r); } };
#ifdef VS_SHIM
        vs::scenario(r.next(), [&] { one(); execution_threads(1); });
#else
        one();
#endif
    });
}
