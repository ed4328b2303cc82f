// Building blocks for harnesses that use the built-in operators: bounds, chromosomes, operators.
#pragma once
#include "trace.hpp"
#include <gapp.hpp>
#include <crossover/crossover_impl.hpp>
#include <cmath>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <mutex>
using namespace gapp;
using tr::Raw;
using Ints = std::vector<int>;
template<typename T> struct Enc;
template<> struct Enc<BinaryGene>      { using GAT = BinaryGA;      static constexpr const char* name = "bin";  };
template<> struct Enc<IntegerGene>     { using GAT = IntegerGA;     static constexpr const char* name = "int";  };
template<> struct Enc<PermutationGene> { using GAT = PermutationGA; static constexpr const char* name = "perm"; };
template<> struct Enc<RealGene>        { using GAT = RCGA;          static constexpr const char* name = "real"; };
static uint64_t mixh(uint64_t a, uint64_t b) { a ^= b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2); a *= 0xBF58476D1CE4E5B9ull; a ^= a >> 29; a *= 0x94D049BB133111EBull; a ^= a >> 32; return a; }
template<typename T> uint64_t hashc(const Chromosome<T>& c) { uint64_t h = 3; for (T g : c) { uint64_t b = 0; memcpy(&b, &g, sizeof g); h = mixh(h, b); } return h; }

template<typename T> struct FitFn final : FitnessFunctionBase<T> {
    std::function<void(const Chromosome<T>&)> seen; int nobj;
    FitFn(size_t len, int nobj, std::function<void(const Chromosome<T>&)> seen = {}, bool dyn = false)
        : FitnessFunctionBase<T>(len, dyn ? FitnessFunctionInfo::Type::Dynamic : FitnessFunctionInfo::Type::Static), seen(std::move(seen)), nobj(nobj) {}
    FitnessVector invoke(const Chromosome<T>& c) const override
    {
        if (seen) seen(c);
        FitnessVector f; uint64_t h = hashc(c);
        for (int j = 0; j < nobj; j++) f.push_back(double((h >> (8 * j)) % 50));
        return f;
    }
};

// ---- bounds ----
static const double INFD = std::numeric_limits<double>::infinity();
template<typename T> Bounds<T> bound(tr::Rnd& r, bool nice)
{
    if constexpr (std::is_same_v<T, double>)
    {
        if (nice) { double l = r.in(-160, 159) / 16.0; return { l, l + (r.chance(15) ? 0 : r.in(16, 160)) / 16.0 }; }
        switch (r.in(0, 12))
        {
            case 0: { double x = r.in(-5, 5); return { x, x }; }
            case 1: return { -0.1, 0.3 };
            case 2: return { 1.0, 1.0 + 4 * std::numeric_limits<double>::epsilon() };
            case 3: return { 1e300, 1.0000001e300 };
            case 4: return { -1e307, 1e307 };
            case 5: return { 0.0, std::numeric_limits<double>::denorm_min() * r.in(1, 9) };
            case 6: return { -1e-310, 1e-310 };
            case 7: return { 1e9, 1e9 + 1 };
            case 8: return { -3.0, std::nextafter(-3.0, 0.0) };
            case 9: return { 0.0, 1e307 };
            case 10: return { -0.0, 0.0 };
            default: { double l = r.in(-1000, 1000) / 7.0; return { l, l + r.in(0, 1000) / 13.0 }; }
        }
    }
    else
    {
        const int64_t lo = std::numeric_limits<int64_t>::min(), hi = std::numeric_limits<int64_t>::max();
        switch (nice ? 10 : r.in(0, 9))
        {
            case 0: { int64_t x = r.in(-5, 5); return { x, x }; }
            case 1: return { lo, hi };
            case 2: return { hi, hi };
            case 3: return { lo, lo };
            case 4: return { hi - 1, hi };
            case 5: return { lo, lo + 1 };
            case 6: return { 0, 1 };
            case 7: return { -1, hi };
            default: { int64_t x = r.in(-50, 50); return { x, x + r.in(0, 6) }; }
        }
    }
}
template<typename T> T inside(tr::Rnd& r, const Bounds<T>& b)
{
    const T lo = b.lower(), hi = b.upper();
    if (lo == hi || r.chance(10)) return lo;
    if (r.chance(10)) return hi;
    if constexpr (std::is_same_v<T, double>) { double x = lo + (hi - lo) * (r.in(0, 1024) / 1024.0); return std::clamp(x, lo, hi); }
    else { uint64_t w = uint64_t(hi) - uint64_t(lo); return T(uint64_t(lo) + (w == ~0ull ? r.next() : r.next() % (w + 1))); }
}
// where a gene lies relative to its bounds: -2 below, -1 at the lower, 0 inside, 1 at the upper, 2 above or not a number
template<typename T> int cls(T g, const Bounds<T>& b)
{
    if (g == b.lower()) return -1;
    if (g == b.upper()) return 1;
    if (g < b.lower()) return -2;
    if (g > b.lower() && g < b.upper()) return 0;
    return 2;
}
template<typename T> Ints clss(const Chromosome<T>& c, const BoundsVector<T>& b)
{
    Ints r;
    for (size_t i = 0; i < c.size(); i++) r.push_back(i < b.size() ? cls(c[i], b[i]) : 2);
    return r;
}
template<typename T> Chromosome<T> randchrom(tr::Rnd& r, size_t len, const BoundsVector<T>& b)
{
    Chromosome<T> c(len);
    for (size_t i = 0; i < len; i++)
    {
        if constexpr (std::is_same_v<T, BinaryGene>) c[i] = T(r.in(0, 1));
        else if constexpr (std::is_same_v<T, PermutationGene>) { c[i] = i; std::swap(c[i], c[size_t(r.in(0, int(i)))]); }
        else c[i] = inside(r, b[i]);
    }
    return c;
}
template<typename T> Chromosome<T> near(tr::Rnd& r, const Chromosome<T>& a, const BoundsVector<T>& b)
{
    Chromosome<T> c = a;
    if (c.empty()) return c;
    if constexpr (std::is_same_v<T, PermutationGene>)
        switch (r.in(0, 2))
        {
            case 0: std::swap(c[r.next() % c.size()], c[r.next() % c.size()]); break;
            case 1: std::reverse(c.begin(), c.end()); break;
            case 2: std::rotate(c.begin(), c.begin() + long(r.next() % c.size()), c.end()); break;
        }
    else { auto d = randchrom<T>(r, a.size(), b); for (int k = r.in(0, 3); k--;) { size_t i = r.next() % c.size(); c[i] = d[i]; } }
    return c;
}

// ---- operators ----
template<typename T> using Xo = std::unique_ptr<crossover::Crossover<T>>;
template<typename T> using Mu = std::unique_ptr<mutation::Mutation<T>>;
template<typename T> struct XoOp { Xo<T> op; std::string kind; Ints par; };
template<typename T> struct MuOp { Mu<T> op; std::string kind; Ints par; int rate; };          // rates in 1/16
template<typename T> int nxo() { if constexpr (std::is_same_v<T, PermutationGene>) return 6; else return 4; }
template<typename T> int nmu() { if constexpr (std::is_same_v<T, PermutationGene> || std::is_same_v<T, double>) return 5; else return 1; }
template<typename T> XoOp<T> xop(tr::Rnd& r, int k, double pc)
{
    if constexpr (std::is_same_v<T, PermutationGene>)
    {
        namespace x = crossover::perm;
        switch (k)
        {
            case 0: return { std::make_unique<x::Order1>(pc), "Order1", {} };
            case 1: return { std::make_unique<x::Order2>(pc), "Order2", {} };
            case 2: return { std::make_unique<x::Position>(pc), "Position", {} };
            case 3: return { std::make_unique<x::Cycle>(pc), "Cycle", {} };
            case 4: return { std::make_unique<x::Edge>(pc), "Edge", {} };
            default: return { std::make_unique<x::PMX>(pc), "PMX", {} };
        }
    }
    else if constexpr (std::is_same_v<T, double>)
    {
        namespace x = crossover::real;
        const int q = r.in(0, 3), a = q == 0 ? 0 : q == 1 ? 8 : q == 2 ? r.in(0, 32) : 160;
        switch (k)
        {
            case 0: return { std::make_unique<x::Arithmetic>(pc), "Arithmetic", {} };
            case 1: return { std::make_unique<x::BLXa>(pc, (a > 32 ? 32 : a) / 16.0), "BLXa", { a > 32 ? 32 : a } };
            case 2: return { std::make_unique<x::SimulatedBinary>(pc, a / 16.0), "SimulatedBinary", { a } };
            default: return { std::make_unique<x::Wright>(pc), "Wright", {} };
        }
    }
    else
    {
        const int n = r.chance(20) ? 1 : r.chance(20) ? 1000 : r.in(1, 9), ps = r.chance(20) ? 0 : r.chance(20) ? 16 : r.in(1, 15);
        auto make = [&]<typename A, typename B, typename C, typename D>(A*, B*, C*, D*) -> XoOp<T>
        {
            switch (k)
            {
                case 0: return { std::make_unique<A>(pc), "SinglePoint", {} };
                case 1: return { std::make_unique<B>(pc), "TwoPoint", {} };
                case 2: return { std::make_unique<C>(pc, size_t(n)), "NPoint", { n } };
                default: return { std::make_unique<D>(pc, ps / 16.0), "Uniform", { ps } };
            }
        };
        if constexpr (std::is_same_v<T, BinaryGene>) { namespace x = crossover::binary; return make((x::SinglePoint*)0, (x::TwoPoint*)0, (x::NPoint*)0, (x::Uniform*)0); }
        else { namespace x = crossover::integer; return make((x::SinglePoint*)0, (x::TwoPoint*)0, (x::NPoint*)0, (x::Uniform*)0); }
    }
}
template<typename T> MuOp<T> mop(tr::Rnd& r, int k, int rate, int fixed = -1)
{
    const double pm = rate / 16.0;
    if constexpr (std::is_same_v<T, PermutationGene>)
    {
        namespace m = mutation::perm;
        const int a = fixed >= 0 ? fixed : r.chance(15) ? 0 : r.chance(30) ? 16 : r.in(1, 15);
        switch (k)
        {
            case 0: return { std::make_unique<m::Inversion>(pm, a / 16.0), "Inversion", { a }, rate };
            case 1: return { std::make_unique<m::Swap2>(pm), "Swap2", {}, rate };
            case 2: return { std::make_unique<m::Swap3>(pm), "Swap3", {}, rate };
            case 3: return { std::make_unique<m::Shuffle>(pm, a / 16.0), "Shuffle", { a }, rate };
            default: return { std::make_unique<m::Shift>(pm, a / 16.0), "Shift", { a }, rate };
        }
    }
    else if constexpr (std::is_same_v<T, double>)
    {
        namespace m = mutation::real;
        const int q = r.in(0, 3), a = fixed >= 0 ? fixed : q == 0 ? 0 : q == 1 ? 32 : q == 2 ? r.in(1, 64) : 640;
        switch (k)
        {
            case 0: return { std::make_unique<m::Uniform>(pm), "Uniform", {}, rate };
            case 1: return { std::make_unique<m::NonUniform>(pm, a / 16.0), "NonUniform", { a }, rate };
            case 2: return { std::make_unique<m::Gauss>(pm, (a + 1) / 16.0), "Gauss", { a + 1 }, rate };
            case 3: return { std::make_unique<m::Polynomial>(pm, a / 16.0), "Polynomial", { a }, rate };
            default: return { std::make_unique<m::Boundary>(pm), "Boundary", {}, rate };
        }
    }
    else if constexpr (std::is_same_v<T, BinaryGene>) return { std::make_unique<mutation::binary::Flip>(pm), "Flip", {}, rate };
    else return { std::make_unique<mutation::integer::Uniform>(pm), "Uniform", {}, rate };
}
template<typename T> auto make_ga(size_t len, const BoundsVector<T>& b, int nobj = 1, int maxgen = 1, int at = 0)
{
    auto ga = std::make_unique<typename Enc<T>::GAT>(size_t(4));
    if (nobj > 1) ga->algorithm(algorithm::NSGA2{}); else ga->algorithm(algorithm::SingleObjective{});
    if constexpr (std::is_same_v<T, double>) { ga->crossover_method(crossover::real::Arithmetic{ 0.5 }); ga->mutation_method(mutation::real::Boundary{ 0.1 }); }
    if constexpr (std::is_same_v<T, IntegerGene>) ga->mutation_method([](const auto&, const auto&, auto&) {});
    ga->stop_condition([at](const GaInfo& g) { return int(g.generation_cntr()) >= at; });
    ga->max_gen(size_t(maxgen));
    if constexpr (is_bounded<T>) ga->solve(FitFn<T>(len, nobj), b); else ga->solve(FitFn<T>(len, nobj));
    return ga;
}
template<typename T> Candidate<T> cand(const Chromosome<T>& c, int nobj, tr::Rnd& r, bool eval = true, int off = 0)
{
    Candidate<T> x(c);
    if (eval) { for (int j = 0; j < nobj; j++) x.fitness.push_back(r.in(0, 4) + off); x.is_evaluated = true; }
    return x;
}
template<typename T> size_t lenof(tr::Rnd& r) { return size_t(r.chance(20) ? 1 : r.chance(20) ? 2 : r.chance(85) ? r.in(3, 12) : r.chance(75) ? r.in(13, 40) : r.in(60, 70)); }
template<typename T> BoundsVector<T> bounds(tr::Rnd& r, size_t len, bool nice) { BoundsVector<T> b; if constexpr (is_bounded<T>) for (size_t i = 0; i < len; i++) b.push_back(bound<T>(r, nice)); return b; }
template<typename T> struct Names { std::map<T, int> m; int of(T x) { return m.emplace(x, int(m.size())).first->second; } };
template<typename T> Ints enc(const Chromosome<T>& c, Names<T>& nm)
{
    Ints r;
    for (T g : c)
        if constexpr (std::is_same_v<T, double>) r.push_back(std::isfinite(g) && std::abs(g) < 1000 ? int(std::floor(g * 256 + 0.5)) : 999999);
        else if constexpr (std::is_same_v<T, IntegerGene>) r.push_back(nm.of(g));
        else r.push_back(int(std::min<uint64_t>(uint64_t(g), 999999)));
    return r;
}
static Ints fits(const FitnessVector& f) { Ints r; for (double x : f) r.push_back(int(x)); return r; }

