// Whole solver runs, instrumented through the public interface only (user supplied operators, algorithms, metrics,
// stop conditions, callbacks and fitness functions).
#pragma once
#include "trace.hpp"
#include <gapp.hpp>
#include <map>
#include <set>
#include <thread>
#include <chrono>
#include <cmath>
#include <variant>
#include <functional>
using namespace gapp;
using tr::Raw;

enum { K_FIT, K_XO, K_MUT, K_REP, K_SEL, K_PREP, K_NEXT, K_STOP, K_CB, K_MET, K_N };
inline const char* KN[] = { "fit", "xo", "mut", "rep", "sel", "prep", "next", "stop", "cb", "mup" };

struct Cfg {                         // everything the user configured, for one run
    int n = 4, gens = 0, maxgen = 3, len = 2, nobj = 1, cache = 0, thr = 1, K = 4, salt = 0;
    bool dyn = false, keep = false, rep = false, ua = true, ux = true, um = true, ustop = true, cb = true, met = true;
    bool vary = false;               // the dynamic fitness changes with the generation
    int alg = 0;                     // 0 user algorithm, 1 default, 2 SingleObjective, 3 NSGA2, 4 NSGA3, 5 SingleObjective with user selection and replacement
    int stopat = 1000;               // the user stop condition holds from this generation on
    int ninit = 0, inite = 0;        // presets and how they are evaluated (0 none, 1 all, 2 alternating)
    double pc = 0.8;
    int fkind = -1, fat = 0;         // fault: kind, call number
    int pick = 0;
};

struct Boom { int v; };
inline bool fuzzy = false;           // fitness values that differ by less than the configured tolerance

// A user defined encoding: genes of two types, chromosomes of any length from 1 up.
using Mixed = std::variant<double, int>;
struct MixXo final : crossover::Crossover<Mixed>
{
    using F = std::function<CandidatePair<Mixed>(const GA<Mixed>&, const Candidate<Mixed>&, const Candidate<Mixed>&)>; F f;
    MixXo() = default; explicit MixXo(F f) : f(std::move(f)) {}
    bool allow_variable_chrom_length() const noexcept override { return true; }
    CandidatePair<Mixed> crossover(const GA<Mixed>& ga, const Candidate<Mixed>& a, const Candidate<Mixed>& b) const override { return f ? f(ga, a, b) : CandidatePair<Mixed>{ a, b }; }
};
struct MixMu final : mutation::Mutation<Mixed>
{
    using F = std::function<void(const GA<Mixed>&, const Candidate<Mixed>&, Chromosome<Mixed>&)>; F f;
    explicit MixMu(Probability p = 0.01) : mutation::Mutation<Mixed>(p) {} explicit MixMu(F f) : mutation::Mutation<Mixed>(0.01), f(std::move(f)) {}
    bool allow_variable_chrom_length() const noexcept override { return true; }
    void mutate(const GA<Mixed>& ga, const Candidate<Mixed>& c, Chromosome<Mixed>& g) const override { if (f) f(ga, c, g); }
};
namespace gapp { template<> struct GaTraits<Mixed> { using DefaultCrossover = MixXo; using DefaultMutation = MixMu; static Probability defaultMutationRate(size_t n) { return 1.0 / double(n); } }; }
class MixedGA final : public GA<Mixed>
{
    using GA<Mixed>::GA;
    Candidate<Mixed> generateCandidate() const override
    {
        Candidate<Mixed> c(chrom_len() + rng::randomInt(0, 1));
        for (auto& g : c.chromosome) { if (rng::randomBool()) g = rng::randomInt(0, 1); else g = double(rng::randomInt(0, 1)); }
        return c;
    }
};

template<typename T> struct Enc;
template<> struct Enc<Mixed>           { using GAT = MixedGA;       static constexpr const char* name = "user"; };
template<> struct Enc<BinaryGene>      { using GAT = BinaryGA;      static constexpr const char* name = "bin";  };
template<> struct Enc<IntegerGene>     { using GAT = IntegerGA;     static constexpr const char* name = "int";  };
template<> struct Enc<PermutationGene> { using GAT = PermutationGA; static constexpr const char* name = "perm"; };
template<> struct Enc<RealGene>        { using GAT = RCGA;          static constexpr const char* name = "real"; };

inline uint64_t mix(uint64_t a, uint64_t b) { a ^= b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2); a *= 0xBF58476D1CE4E5B9ull; a ^= a >> 29; a *= 0x94D049BB133111EBull; a ^= a >> 32; return a; }
inline long q(double x) { return long(std::floor(x * 1000 + 0.5)); }

template<typename T> struct World {
    using Ch = Chromosome<T>;
    Cfg c;
    std::map<Ch, int> ids;
    std::mutex mx;
    std::vector<double> lo, hi;
    std::atomic<int> calls[K_N] = {};
    std::atomic<int> selc = 0;
    std::atomic<int> epoch = 0;
    std::atomic<bool> active = false;
    std::map<int, std::vector<int>> script;   // scripted decisions per kind of call, consumed in order (single threaded runs)
    std::map<int, size_t> sp;
    bool scripted = false, same = false;
    std::vector<std::vector<int>> table;

    int take(int k) { auto& v = script[k]; size_t i = sp[k]++; return i < v.size() ? v[i] : 0; }
    static long gene(T g, double l, double h)
    {
        if constexpr (std::is_same_v<T, double>)
        {
            if (!(g >= l)) return q(l) - 1;
            if (!(g <= h)) return q(h) + 1;
            return std::clamp(q(g), q(l), q(h));
        }
        else if constexpr (std::is_same_v<T, Mixed>) return g.index() ? 2 * std::get<1>(g) : 2 * long(std::get<0>(g)) + 1;
        else return (g > (T)1000000) ? 1000000 : long(g);
    }
    std::vector<int> F(const Ch& ch) const
    {
        std::vector<int> r(c.nobj);
        if (scripted) { size_t k = ch.empty() ? 0 : size_t(gene(ch[0], 0, 99)) % table.size(); return table[k]; }
        for (int j = 0; j < c.nobj; j++)
        {
            uint64_t h = mix(uint64_t(c.salt), uint64_t(j));
            for (size_t i = 0; i < ch.size(); i++) h = mix(h, uint64_t(gene(ch[i], i < lo.size() ? lo[i] : 0, i < hi.size() ? hi[i] : 1) + 77));
            r[j] = int(h % uint64_t(c.K));
        }
        return r;
    }
    int id(const Ch& ch)
    {
        std::lock_guard g(mx);
        auto it = ids.find(ch);
        if (it != ids.end()) return it->second;
        int k = int(ids.size()) + 1;
        ids.emplace(ch, k);
        std::vector<long> gs;
        for (size_t i = 0; i < ch.size(); i++) gs.push_back(gene(ch[i], i < lo.size() ? lo[i] : 0, i < hi.size() ? hi[i] : 1));
        tr::ev("chrom", "c", k, "genes", gs, "f", F(ch));
        return k;
    }
    template<typename V> static std::vector<int> fv(const V& f)
    {
        std::vector<int> r;
        if (fuzzy) { for (double x : f) r.push_back(std::abs(x - std::floor(x)) <= 0.25 ? int(std::floor(x)) : -999999); return r; }
        for (double x : f) r.push_back(std::isfinite(x) && x == std::floor(x) && std::abs(x) < 1e6 ? int(x) : -999999);
        return r;
    }
    Raw cand(const Candidate<T>& x) { int k = id(x.chromosome); return tr::obj("c", k, "f", fv(x.fitness), "ev", x.is_evaluated); }
    template<typename P> std::vector<Raw> pop(const P& p) { std::vector<Raw> r; for (const auto& x : p) r.push_back(cand(x)); return r; }
    template<typename M> static std::vector<std::vector<int>> fmat(const M& m) { std::vector<std::vector<int>> r; for (const auto& row : m) r.push_back(fv(row)); return r; }

    // every call of a user supplied function: maybe some delay, maybe the injected failure
    void call(int kind)
    {
        int k = ++calls[kind];
        if (c.thr > 1) { int z = int(mix(k * 17 + kind, c.salt) % 7); if (z < 2) std::this_thread::yield(); else if (z == 2) std::this_thread::sleep_for(std::chrono::microseconds(20)); }
        if (kind == c.fkind && k == c.fat) { tr::ev("throw", "in", KN[kind]); throw Boom{ k }; }
    }
    T randgene(uint64_t h, size_t i) const
    {
        if constexpr (std::is_same_v<T, Mixed>) { if (h % 2) return Mixed(double(h / 2 % 2)); return Mixed(int(h / 2 % 2)); }
        else if constexpr (std::is_same_v<T, BinaryGene>) return T(h % 2);
        else if constexpr (std::is_same_v<T, IntegerGene>) return T(lo[i] + double(h % uint64_t(hi[i] - lo[i] + 1)));
        else if constexpr (std::is_same_v<T, RealGene>) { double t = double(h % 3) / 2; return lo[i] + t * (hi[i] - lo[i]); }
        else return T(h);
    }
    Ch randchrom(uint64_t h) const
    {
        Ch r(size_t(c.len) + (std::is_same_v<T, Mixed> ? h / 7 % 3 : 0)); if (std::is_same_v<T, Mixed> && h % 5 == 0) r.resize(1);
        if constexpr (std::is_same_v<T, PermutationGene>)
        {
            for (int i = 0; i < c.len; i++) r[i] = T(i);
            for (int i = c.len - 1; i > 0; i--) { h = mix(h, i); std::swap(r[i], r[h % uint64_t(i + 1)]); }
        }
        else for (size_t i = 0; i < r.size(); i++) { h = mix(h, i + 5); r[i] = randgene(h, i); }
        return r;
    }
    uint64_t hash(const Ch& ch) const { uint64_t h = 5; for (T g : ch) h = mix(h, uint64_t(gene(g, -1e9, 1e9))); return h; }
};

template<typename T> struct Fit final : FitnessFunctionBase<T> {
    World<T>* w;
    Fit(World<T>* w) : FitnessFunctionBase<T>(size_t(w->c.len), w->c.dyn ? FitnessFunctionInfo::Type::Dynamic : FitnessFunctionInfo::Type::Static), w(w) {}
    FitnessVector invoke(const Chromosome<T>& ch) const override
    {
        w->call(K_FIT);
        std::vector<int> f = w->F(ch);
        if (w->c.vary) for (int& x : f) x += 10 * w->epoch;
        FitnessVector r(f.begin(), f.end());
        if (fuzzy) for (double& x : r) x += double(w->hash(ch) % 3) / 8;
        int k = w->id(ch);
        tr::ev("fit", "c", k, "f", f);
        return r;
    }
};

template<typename T> int pickmode(World<T>* w, int g, const FitnessMatrix& fm, small_vector<size_t>& out)
{
    const size_t n = fm.size() / 2, m = fm.size();
    std::vector<size_t> ix(m);
    for (size_t i = 0; i < m; i++) ix[i] = i;
    tr::Rnd r(mix(w->c.salt * 31 + 7, uint64_t(g)));
    int mode = w->c.pick ? w->c.pick : r.in(1, 4);
    if (mode == 1) { for (size_t i = 0; i < n; i++) out.push_back(n + i); }
    else if (mode == 2) { std::stable_sort(ix.begin(), ix.end(), [&](size_t a, size_t b) { return fm[a][0] > fm[b][0]; }); for (size_t i = 0; i < n; i++) out.push_back(ix[i]); }
    else { for (size_t i = m - 1; i > 0; i--) std::swap(ix[i], ix[size_t(r.in(0, int(i)))]); for (size_t i = 0; i < n; i++) out.push_back(ix[i]); }
    return mode;
}

template<typename T> struct UAlg final : algorithm::Algorithm {
    World<T>* w; FitnessMatrix prep;
    UAlg(World<T>* w) : w(w) {}
    void initializeImpl(const GaInfo&) override { tr::ev("ainit"); }
    void prepareSelectionsImpl(const GaInfo&, const FitnessMatrix& fm) override { w->call(K_PREP); prep = fm; tr::ev("prep", "fm", w->fmat(fm)); }
    size_t selectImpl(const GaInfo&, const FitnessMatrix& fm) const override
    {
        w->call(K_SEL);
        size_t i = w->scripted ? size_t(w->take(K_SEL)) % fm.size() : mix(uint64_t(w->selc++), w->c.salt) % fm.size();
        tr::ev("sel", "i", i, "same", fm == prep);
        return i;
    }
    small_vector<size_t> nextPopulationImpl(const GaInfo& ga, const FitnessMatrix& fm) override
    {
        w->call(K_NEXT);
        small_vector<size_t> r;
        if (w->scripted) { for (int i = 0; i < w->c.n; i++) r.push_back(size_t(w->take(K_NEXT)) % fm.size()); }
        else pickmode(w, int(ga.generation_cntr()), fm, r);
        tr::ev("next", "fm", w->fmat(fm), "pick", std::vector<size_t>(r.begin(), r.end()));
        return r;
    }
};
template<typename T> struct USel final : selection::Selection {
    World<T>* w; FitnessMatrix prep;
    USel(World<T>* w) : w(w) {}
    void initializeImpl(const GaInfo&) override { tr::ev("ainit"); }
    void prepareSelectionsImpl(const GaInfo&, const FitnessMatrix& fm) override { w->call(K_PREP); prep = fm; tr::ev("prep", "fm", w->fmat(fm)); }
    size_t selectImpl(const GaInfo&, const FitnessMatrix& fm) const override
    {
        w->call(K_SEL);
        size_t i = mix(uint64_t(w->selc++), w->c.salt) % fm.size();
        tr::ev("sel", "i", i, "same", fm == prep);
        return i;
    }
};
template<typename T> struct URep final : replacement::Replacement {
    World<T>* w;
    URep(World<T>* w) : w(w) {}
    small_vector<size_t> nextPopulationImpl(const GaInfo& ga, const FitnessMatrix& fm) override
    {
        w->call(K_NEXT);
        small_vector<size_t> r;
        pickmode(w, int(ga.generation_cntr()), fm, r);
        tr::ev("next", "fm", w->fmat(fm), "pick", std::vector<size_t>(r.begin(), r.end()));
        return r;
    }
};

template<typename T> Raw snap(World<T>* w, const GaInfo& gi)
{
    const auto& ga = static_cast<const GA<T>&>(gi);
    auto p = w->pop(ga.population());
    return tr::obj("g", gi.generation_cntr(), "e", gi.num_fitness_evals(), "pop", p, "fm", w->fmat(gi.fitness_matrix()), "max", gi.max_gen());
}
template<typename T> struct UMet final : metrics::Monitor<UMet<T>, std::vector<int>> {
    World<T>* w;
    UMet(World<T>* w) : w(w) {}
    void initialize(const GaInfo&) override { this->data_.clear(); tr::ev("minit"); }
    void update(const GaInfo& ga) override { w->call(K_MET); this->data_.push_back(int(ga.generation_cntr())); tr::ev("mup", "s", snap(w, ga), "k", this->data_.size()); }
};
template<typename T> struct UStop final : stopping::StopCondition {
    World<T>* w;
    UStop(World<T>* w) : w(w) {}
    void initialize(const GaInfo&) override { tr::ev("sinit"); }
    bool stop_condition(const GaInfo& ga) override
    {
        w->call(K_STOP);
        bool r = w->scripted ? w->take(K_STOP) != 0 : int(ga.generation_cntr()) >= w->c.stopat;
        tr::ev("stop", "s", snap(w, ga), "r", r);
        w->epoch++;
        return r;
    }
};

template<typename T> struct Solver {
    World<T>& w;
    std::unique_ptr<typename Enc<T>::GAT> ga;
    Solver(World<T>& w) : w(w) {}
    void make(const Cfg& c)
    {
        w.c = c;
        ga = std::make_unique<typename Enc<T>::GAT>(size_t(c.n));
        apply(c);
    }
    template<typename U, typename F> void usex(F f) { if constexpr (std::is_same_v<U, Mixed>) ga->crossover_method(MixXo(typename MixXo::F(f))); else ga->crossover_method(f); }
    template<typename U, typename F> void usem(F f) { if constexpr (std::is_same_v<U, Mixed>) ga->mutation_method(MixMu(typename MixMu::F(f))); else ga->mutation_method(f); }
    void apply(const Cfg& c)
    {
        w.c = c;
        ga->population_size(size_t(c.n));
        ga->max_gen(size_t(c.maxgen));
        ga->cache_size(size_t(c.cache));
        ga->keep_all_optimal_solutions(c.keep);
        switch (c.alg)
        {
            case 0: ga->algorithm(UAlg<T>(&w)); break;
            case 1: ga->algorithm(nullptr); break;
            case 2: ga->algorithm(algorithm::SingleObjective{}); break;
            case 3: ga->algorithm(algorithm::NSGA2{}); break;
            case 4: ga->algorithm(algorithm::NSGA3{}); break;
            case 5: ga->algorithm(algorithm::SingleObjective(USel<T>(&w), URep<T>(&w))); break;
        }
        if (c.ustop) ga->stop_condition(UStop<T>(&w)); else ga->stop_condition(nullptr);
        if (c.met) ga->track(UMet<T>(&w)); else ga->track();
        World<T>* wp = &w;
        if (c.cb) ga->on_generation_end([wp](const GaInfo& gi) { wp->call(K_CB); tr::ev("cb", "s", snap(wp, gi)); }); else ga->on_generation_end(nullptr);
        if (c.ux) usex<T>([wp](const GA<T>&, const Candidate<T>& a, const Candidate<T>& b) -> CandidatePair<T>
        {
            wp->call(K_XO);
            Candidate<T> x(a.chromosome), y(b.chromosome);
            if (wp->scripted) { x = Candidate<T>(Chromosome<T>{ T(wp->take(K_XO)) }); y = Candidate<T>(Chromosome<T>{ T(wp->take(K_XO)) }); }
            else
            {
                uint64_t h = mix(mix(wp->hash(a.chromosome), wp->hash(b.chromosome)), wp->c.salt + wp->epoch);
                switch (h % 5)
                {
                    case 0: break;
                    case 1: std::swap(x, y); break;
                    case 2: x = Candidate<T>(wp->randchrom(h)); break;
                    case 3: x = Candidate<T>(wp->randchrom(h)); y = Candidate<T>(wp->randchrom(h * 3 + 1)); break;
                    case 4: x = a; y = a; break;
                }
                if (h % 11 == 3) { x.is_evaluated = true; x.fitness = FitnessVector(size_t(wp->c.nobj), 77.0); }  // what the operator puts there is irrelevant
            }
            Raw ra = wp->cand(a), rb = wp->cand(b);
            int ix = wp->id(x.chromosome), iy = wp->id(y.chromosome);
            tr::ev("xo", "a", ra, "b", rb, "x", ix, "y", iy);
            return { std::move(x), std::move(y) };
        });
        if (c.ux) ga->crossover_rate(c.pc);
        if (c.um) usem<T>([wp](const GA<T>&, const Candidate<T>& s, Chromosome<T>& ch)
        {
            wp->call(K_MUT);
            int in = wp->id(ch);
            Raw rs = wp->cand(s);
            if (wp->scripted) ch[0] = T(wp->take(K_MUT));
            else
            {
                uint64_t h = mix(wp->hash(ch), wp->c.salt * 5 + 1 + wp->epoch);
                if (h % 2) ch = wp->randchrom(h);
            }
            int out = wp->id(ch);
            tr::ev("mut", "s", rs, "in", in, "out", out);
        });
        if (c.rep) ga->repair_function([wp](const GA<T>&, const Chromosome<T>& ch) -> Chromosome<T>
        {
            wp->call(K_REP);
            Chromosome<T> r = ch;
            if (wp->scripted) r[0] = T(wp->take(K_REP));
            else
            {
                uint64_t h = mix(wp->hash(ch), wp->c.salt * 7 + 3);
                if (h % 3 == 0) r = wp->randchrom(h);
            }
            int in = wp->id(ch), out = wp->id(r);
            tr::ev("rep", "in", in, "out", out);
            return r;
        }); else ga->repair_function(nullptr);
    }
    Raw after()
    {
        return tr::obj("max", ga->max_gen(), "n", ga->population_size(), "keep", ga->keep_all_optimal_solutions(), "pc", q(ga->crossover_rate()));
    }
    void run(const Cfg& c, const std::vector<Candidate<T>>* preset = nullptr)
    {
        w.c = c; w.ids.clear(); w.epoch = 0; w.selc = 0;
        for (auto& k : w.calls) k = 0;
        Population<T> init;
        if (preset) init.assign(preset->begin(), preset->end());
        else for (int i = 0; i < c.ninit; i++)
        {
            Candidate<T> x(w.randchrom(mix(c.salt * 13 + 5, i)));
            if (c.inite == 1 || (c.inite == 2 && i % 2)) { auto f = w.F(x.chromosome); x.fitness = FitnessVector(f.begin(), f.end()); x.is_evaluated = true; }
            init.push_back(x);
        }
        std::vector<long> ql, qh;
        for (double x : w.lo) ql.push_back(std::is_same_v<T, double> ? q(x) : long(x));
        for (double x : w.hi) qh.push_back(std::is_same_v<T, double> ? q(x) : long(x));
        tr::ev("run", "enc", Enc<T>::name, "lo", ql, "hi", qh, "n", c.n, "gens", c.gens, "max", c.maxgen, "len", c.len, "nobj", c.nobj, "cache", c.cache, "dyn", c.dyn, "vary", c.vary,
               "keep", c.keep, "rep", c.rep, "ua", c.alg == 0 || c.alg == 5, "ux", c.ux, "um", c.um, "ustop", c.ustop, "cb", c.cb, "met", c.met, "pc", q(c.ux ? c.pc : 0.8), "ninit", init.size());
        auto ri = w.pop(init);
        tr::ev("init", "pop", ri);
        try
        {
            Population<T> sols;
            if constexpr (is_bounded<T>)
            {
                BoundsVector<T> bv;
                for (int i = 0; i < c.len; i++) bv.push_back(Bounds<T>(T(w.lo[i]), T(w.hi[i])));
                bool same = true; for (int i = 1; i < c.len; i++) same = same && w.lo[i] == w.lo[0] && w.hi[i] == w.hi[0];
                const int form = c.salt % 4; auto up = [&] { return std::unique_ptr<FitnessFunctionBase<T>>(std::make_unique<Fit<T>>(&w)); };      // the ways to call it
                Candidates<T> s;
                if (form < 2 && same) { const Bounds<T> b = bv[0]; s = form ? (c.gens ? ga->solve(up(), b, size_t(c.gens), init) : ga->solve(up(), b, init)) : c.gens ? ga->solve(Fit<T>(&w), b, size_t(c.gens), init) : ga->solve(Fit<T>(&w), b, init); }
                else if (form == 1) s = c.gens ? ga->solve(up(), bv, size_t(c.gens), init) : ga->solve(up(), bv, init);
                else s = c.gens ? ga->solve(Fit<T>(&w), bv, size_t(c.gens), init) : ga->solve(Fit<T>(&w), bv, init);
                sols.assign(s.begin(), s.end());
            }
            else
            {
                Candidates<T> s;
                if (c.salt % 4 == 1) { auto up = std::unique_ptr<FitnessFunctionBase<T>>(std::make_unique<Fit<T>>(&w)); s = c.gens ? ga->solve(std::move(up), size_t(c.gens), init) : ga->solve(std::move(up), init); }
                else s = c.gens ? ga->solve(Fit<T>(&w), size_t(c.gens), init) : ga->solve(Fit<T>(&w), init);
                sols.assign(s.begin(), s.end());
            }
            auto rs = w.pop(sols);
            auto rm = w.pop(ga->solutions());
            tr::ev("ret", "s", snap(&w, *ga), "sols", rs, "mem", rm, "st", after(), "k", c.met ? ga->template get_metric<UMet<T>>().size() : 0);
        }
        catch (const Boom&) { tr::ev("exc", "st", after(), "same", true); }
        catch (...) { tr::ev("exc", "st", after(), "same", false); }
    }
};
