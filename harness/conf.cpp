// Constructors, setters and runs of a solver: which algorithm, operators and rates are in force.
#include "trace.hpp"
#include <gapp.hpp>
#include <cmath>
#include <typeinfo>
using namespace gapp;
using tr::Raw;

struct Boom {};
template<typename T> struct Enc;
template<> struct Enc<BinaryGene>      { using GAT = BinaryGA;      static constexpr const char* name = "bin";  };
template<> struct Enc<IntegerGene>     { using GAT = IntegerGA;     static constexpr const char* name = "int";  };
template<> struct Enc<PermutationGene> { using GAT = PermutationGA; static constexpr const char* name = "perm"; };
template<> struct Enc<RealGene>        { using GAT = RCGA;          static constexpr const char* name = "real"; };

static long q(double x) { return std::lround(x * 60000); }

template<typename T> struct Fit final : FitnessFunctionBase<T> {
    size_t d; bool boom;
    Fit(size_t len, size_t d, bool boom) : FitnessFunctionBase<T>(len), d(d), boom(boom) {}
    FitnessVector invoke(const Chromosome<T>& c) const override
    {
        if (boom) throw Boom{};
        FitnessVector f; for (size_t i = 0; i < d; i++) f.push_back(double(c[i % c.size()]) * (i % 2 ? -1 : 1));
        return f;
    }
};
struct UAlg final : algorithm::Algorithm {
    size_t selectImpl(const GaInfo&, const FitnessMatrix&) const override { return 0; }
    small_vector<size_t> nextPopulationImpl(const GaInfo&, const FitnessMatrix& fm) override { small_vector<size_t> r; for (size_t i = 0; i < fm.size() / 2; i++) r.push_back(i); return r; }
};
struct Sel final : selection::Selection {
    size_t selectImpl(const GaInfo&, const FitnessMatrix&) const override { return 0; }
};
template<typename T> struct UX final : crossover::Crossover<T> {
    using crossover::Crossover<T>::Crossover;
    CandidatePair<T> crossover(const GA<T>&, const Candidate<T>& a, const Candidate<T>& b) const override { return { a, b }; }
};
template<typename T> struct UM final : mutation::Mutation<T> {
    using mutation::Mutation<T>::Mutation;
    void mutate(const GA<T>&, const Candidate<T>&, Chromosome<T>&) const override {}
};
struct UStop final : stopping::StopCondition { bool stop_condition(const GaInfo&) override { return true; } };

template<typename T> Raw obs(const GaInfo& gi)
{
    const auto& ga = static_cast<const GA<T>&>(gi);
    const auto& a = ga.algorithm();
    const char* alg = "other";
    if (dynamic_cast<const UAlg*>(&a)) alg = "user";
    else if (dynamic_cast<const algorithm::NSGA2*>(&a)) alg = "nsga2";
    else if (dynamic_cast<const algorithm::NSGA3*>(&a)) alg = "nsga3";
    else if (auto* s = dynamic_cast<const algorithm::SingleObjective*>(&a)) alg = dynamic_cast<const Sel*>(&s->selection_method()) ? "sosel" : dynamic_cast<const selection::Roulette*>(&s->selection_method()) ? "soroul" : "so";
    const auto& m = ga.mutation_method(); const auto& x = ga.crossover_method();
    const char* mu = typeid(m) == typeid(typename GaTraits<T>::DefaultMutation) ? "def" : typeid(m) == typeid(UM<T>) ? "user" : "lambda";
    const char* xo = typeid(x) == typeid(typename GaTraits<T>::DefaultCrossover) ? "def" : typeid(x) == typeid(UX<T>) ? "user" : "lambda";
    return tr::obj("alg", alg, "mut", mu, "pm", q(ga.mutation_rate()), "xo", xo, "pc", q(ga.crossover_rate()), "n", ga.population_size(), "max", ga.max_gen(), "keep", ga.keep_all_optimal_solutions());
}

template<typename T> void scen(const std::vector<int>& ops, long k)
{
    using GAT = typename Enc<T>::GAT;
    using DX = typename GaTraits<T>::DefaultCrossover; using DM = typename GaTraits<T>::DefaultMutation;
    std::unique_ptr<GAT> ga;
    tr::begin(k, tr::obj("enc", Enc<T>::name));
    const double rates[] = { 0.25, 0.5, 0.0, 1.0, 0.1 };
    size_t i = 0;
    auto arg = [&] { return i < ops.size() ? ops[i++] : 0; };
    std::unique_ptr<algorithm::Algorithm> null;
    auto alg = [&](int a) -> std::unique_ptr<algorithm::Algorithm> {
        switch (a) { case 0: return nullptr; case 1: return std::make_unique<UAlg>(); case 2: return std::make_unique<algorithm::SingleObjective>(selection::Roulette{});
                     case 3: return std::make_unique<algorithm::SingleObjective>(Sel{}); case 4: return std::make_unique<algorithm::NSGA2>(); default: return std::make_unique<algorithm::NSGA3>(); }
    };
    static const char* an[] = { "deduce", "user", "soroul", "sosel", "nsga2", "nsga3" };
    try {
    while (i < ops.size())
    {
        const int op = arg();
        if (op == 0)                                            // construct: kind, algorithm, rate
        {
            const int kind = arg(), a = arg(), r = arg();
            const size_t n = 2 + size_t(a % 3);
            switch (kind)
            {
                case 0: ga = std::make_unique<GAT>(n); break;
                case 1: ga = std::make_unique<GAT>(n, alg(a)); break;
                case 2: ga = std::make_unique<GAT>(n, std::make_unique<UX<T>>(rates[r]), std::make_unique<UM<T>>(rates[r])); break;
                case 3: ga = std::make_unique<GAT>(n, alg(a), std::make_unique<DX>(), std::make_unique<DM>(rates[r]), nullptr); break;
                case 4: if (a == 1) ga = std::make_unique<GAT>(n, UAlg{}); else if (a == 3) ga = std::make_unique<GAT>(n, algorithm::SingleObjective(Sel{})); else ga = std::make_unique<GAT>(n, algorithm::NSGA2{}); break;
                case 5: ga = std::make_unique<GAT>(n, DX(rates[r]), UM<T>(rates[r])); break;
                case 6: ga = std::make_unique<GAT>(n, UAlg{}, UX<T>(rates[r]), DM(rates[r])); break;
                case 7: ga = std::make_unique<GAT>(n, alg(a), std::make_unique<UX<T>>(rates[r]), std::make_unique<UM<T>>(rates[r]), std::make_unique<UStop>()); break;
            }
            tr::ev("ctor", "kind", kind, "alg", kind == 4 ? (a == 1 ? "user" : a == 3 ? "sosel" : "nsga2") : an[a], "r", q(rates[r]), "n", n);
        }
        else if (op == 1) { const int a = arg(); if (a == 6) ga->algorithm(nullptr); else if (a == 2) ga->algorithm(algorithm::SingleObjective(selection::Roulette{})); else if (a == 4) ga->algorithm(algorithm::NSGA2{}); else ga->algorithm(alg(a)); tr::ev("alg", "alg", a == 6 ? "deduce" : an[a]); }
        else if (op == 2)                                       // mutation operator: kind, rate
        {
            const int kind = arg(), r = arg();
            if (kind == 0) { ga->mutation_method(DM(rates[r])); tr::ev("mut", "mut", "def", "r", q(rates[r])); }
            else if (kind == 1) { ga->mutation_method(std::make_unique<UM<T>>(rates[r])); tr::ev("mut", "mut", "user", "r", q(rates[r])); }
            else { ga->mutation_method([](const GA<T>&, const Candidate<T>&, Chromosome<T>&) {}); tr::ev("mut", "mut", "lambda", "r", -1); }
        }
        else if (op == 3) { const int r = arg(); ga->mutation_rate(rates[r]); tr::ev("pm", "r", q(rates[r])); }
        else if (op == 4)
        {
            const int kind = arg(), r = arg();
            if (kind == 0) { ga->crossover_method(DX(rates[r])); tr::ev("xo", "xo", "def", "r", q(rates[r])); }
            else if (kind == 1) { ga->crossover_method(std::make_unique<UX<T>>(rates[r])); tr::ev("xo", "xo", "user", "r", q(rates[r])); }
            else { ga->crossover_method([](const GA<T>&, const Candidate<T>& a, const Candidate<T>& b) { return CandidatePair<T>{ a, b }; }); tr::ev("xo", "xo", "lambda", "r", -1); }
        }
        else if (op == 5) { const int r = arg(); ga->crossover_rate(rates[r]); tr::ev("pc", "r", q(rates[r])); }
        else if (op == 6)                                       // other settings
        {
            const int w = arg(), v = arg();
            if (w == 0) { ga->population_size(size_t(2 + v)); tr::ev("set", "what", "n", "v", 2 + v); }
            else if (w == 1) { ga->max_gen(size_t(1 + v)); tr::ev("set", "what", "max", "v", 1 + v); }
            else if (w == 2) { ga->cache_size(size_t(v)); tr::ev("set", "what", "cache", "v", v); }
            else { ga->keep_all_optimal_solutions(v % 2); tr::ev("set", "what", "keep", "v", v % 2); }
        }
        else                                                    // run: length, objectives, generations for this run (0: the solver's), failure
        {
            const int len = arg(), d = arg(), gens = arg(), boom = arg();
            tr::ev("run", "len", len, "d", d, "gens", gens, "boom", boom);
            ga->on_generation_end([](const GaInfo& gi) { if (gi.generation_cntr() < 2) tr::ev("in", "o", obs<T>(gi)); });
            try
            {
                if constexpr (is_bounded<T>)
                {
                    BoundsVector<T> bv(size_t(len), Bounds<T>(T(0), T(3)));
                    if (gens) ga->solve(Fit<T>(size_t(len), size_t(d), boom), bv, size_t(gens)); else ga->solve(Fit<T>(size_t(len), size_t(d), boom), bv);
                }
                else { if (gens) ga->solve(Fit<T>(size_t(len), size_t(d), boom), size_t(gens)); else ga->solve(Fit<T>(size_t(len), size_t(d), boom)); }
                tr::ev("done");
            }
            catch (const Boom&) { tr::ev("failed"); }
        }
        tr::ev("obs", "o", obs<T>(*ga));
    }
    } catch (...) { tr::ev("exception"); }
}

int main(int argc, char** argv)
{
    tr::Args a = tr::parse(argc, argv);
    int cnt = 0;
    for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--n")) cnt = atoi(argv[i + 1]);
    execution_threads(1);
    const std::vector<std::string> gen = a.ops.empty() ? std::vector<std::string>{} : tr::lines(a.ops);
    return tr::run(a, long(gen.size()) + long(cnt) * (a.thorough ? 10 : 1), [&](long k)
    {
        std::vector<int> v;
        tr::Rnd r(a.seed * 1000003 + uint64_t(k));
        rng::prng.seed(uint64_t(a.seed * 7919 + k));
        if (k < long(gen.size()))
        {
            const char* c = gen[size_t(k)].c_str(); char* e;
            while (*c) { long x = strtol(c, &e, 10); if (e == c) { c++; continue; } v.push_back(int(x)); c = e; }
        }
        else
        {
            // what the algorithm in force (as configured) can solve: 0 deduced/any, 1 single objective only, 2 several objectives only
            auto fits = [](int alg) { return alg == 2 || alg == 3 ? 1 : alg == 4 || alg == 5 ? 2 : 0; };
            int kind = r.in(0, 7), al = r.in(0, 5), cur = 0;
            if (kind == 4) { al = r.pick(*new std::vector<int>{ 1, 3, 4 }); }
            v = { 0, kind, al, r.in(0, 4) };
            cur = kind == 1 || kind == 3 || kind == 4 || kind == 7 ? fits(al) : 0;
            const int n = r.in(1, 9);
            for (int i = 0; i < n; i++)
            {
                int op = r.chance(35) ? 7 : r.in(1, 6);
                v.push_back(op);
                switch (op)
                {
                    case 1: { int x = r.in(0, 6); v.push_back(x); cur = x == 6 ? 0 : fits(x); break; }
                    case 2: case 4: v.push_back(r.in(0, 2)); v.push_back(r.in(0, 4)); break;
                    case 3: case 5: v.push_back(r.in(0, 4)); break;
                    case 6: v.push_back(r.in(0, 3)); v.push_back(r.in(0, 3)); break;
                    default: v.push_back(r.in(1, 6)); v.push_back(cur == 1 ? 1 : cur == 2 ? r.in(2, 3) : r.in(1, 3)); v.push_back(r.chance(50) ? 0 : r.in(1, 3)); v.push_back(r.chance(15)); break;
                }
            }
            if (n < 9 && !std::count(v.begin(), v.end(), 7)) { v.insert(v.end(), { 7, r.in(1, 6), cur == 2 ? 2 : 1, 0, 0 }); }
        }
        // keep runs short
        switch (k % 4) { case 0: scen<BinaryGene>(v, k); break; case 1: scen<IntegerGene>(v, k); break; case 2: scen<PermutationGene>(v, k); break; default: scen<RealGene>(v, k); }
    });
}
