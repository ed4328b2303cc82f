// The built-in crossover and mutation operators, called directly and in whole runs, with every encoding.
#include "ops.hpp"
// ---- crossover: the distinct outcomes of several calls on the same parents ----
template<typename T> void xo_event(tr::Rnd& r, const GA<T>& ga, XoOp<T>& x, const Candidate<T>& p1, const Candidate<T>& p2, const BoundsVector<T>& b, bool nice, int calls)
{
    Names<T> nm;
    const Ints a = enc(p1.chromosome, nm), c = enc(p2.chromosome, nm);
    const Candidate<T> q1 = p1, q2 = p2;
    std::set<std::vector<Ints>> outs;
    std::set<Ints> codes;
    bool same = true;
    for (int k = 0; k < calls; k++)
    {
        auto [c1, c2] = (*x.op)(ga, p1, p2);
        outs.insert({ enc(c1.chromosome, nm), enc(c2.chromosome, nm) });
        codes.insert(clss(c1.chromosome, b)); codes.insert(clss(c2.chromosome, b));
        if (c1.chromosome.size() != p1.chromosome.size() || c2.chromosome.size() != p1.chromosome.size()) codes.insert({ 9 });
        same &= p1.chromosome == q1.chromosome && p2.chromosome == q2.chromosome && p1.fitness == q1.fitness && p2.fitness == q2.fitness && p1.is_evaluated && p2.is_evaluated;
    }
    std::vector<Ints> lo, hi;
    Ints bl, bu;
    if constexpr (std::is_same_v<T, double>) if (nice) for (auto& i : b) { bl.push_back(int(i.lower() * 256)); bu.push_back(int(i.upper() * 256)); }
    if (!nice && is_bounded<T> && std::is_same_v<T, double>) outs.clear();
    tr::ev("xo", "enc", Enc<T>::name, "kind", x.kind, "par", x.par, "p1", a, "p2", c, "f1", fits(p1.fitness), "f2", fits(p2.fitness), "lo", bl, "hi", bu, "outs", outs, "codes", codes, "same", same);
}
template<typename T> void fam_xo(tr::Rnd& r, bool nice)
{
    const size_t len = lenof<T>(r);
    const auto b = bounds<T>(r, len, nice);
    const int nobj = r.in(1, 2);
    auto ga = make_ga<T>(len, b, nobj);
    for (int rep = r.in(1, 3); rep--;)
    {
        auto x = xop<T>(r, r.in(0, nxo<T>() - 1), 1.0);
        auto c1 = randchrom<T>(r, len, b), c2 = r.chance(30) ? near<T>(r, c1, b) : randchrom<T>(r, len, b);
        if constexpr (std::is_same_v<T, BinaryGene> || std::is_same_v<T, IntegerGene>)
            if (r.chance(50)) for (size_t i = 0; i < len; i++)                                   // different everywhere
            {
                if constexpr (std::is_same_v<T, BinaryGene>) c2[i] = T(1 - c1[i]);
                else { c1[i] = b[i].lower(); c2[i] = b[i].upper(); }
            }
        xo_event<T>(r, *ga, x, cand<T>(c1, nobj, r), cand<T>(c2, nobj, r), b, nice, len > 40 ? 2 : len > 12 ? 6 : 16);
    }
}

// ---- mutation ----
template<typename T> void mut_event(tr::Rnd& r, const GA<T>& ga, MuOp<T>& m, const Chromosome<T>& old, const BoundsVector<T>& b, int calls)
{
    Names<T> nm;
    const Ints a = std::is_same_v<T, double> ? Ints{} : enc(old, nm);
    std::set<std::vector<Ints>> outs;
    Ints wide;                                                                     // genes that every mutation of them changes
    for (size_t i = 0; i < b.size(); i++)
    {
        if constexpr (std::is_same_v<T, double>)
        {
            const double w = b[i].upper() - b[i].lower(), x = old[i];
            wide.push_back(w > 1e-3 && w < 1e6 && std::abs(x) < 1e6 && x - b[i].lower() > w / 100 && b[i].upper() - x > w / 100);
        }
        else wide.push_back(b[i].lower() < b[i].upper());
    }
    for (int k = 0; k < calls; k++)
    {
        Candidate<T> c(old);
        if (r.chance(50)) { c.fitness.assign(ga.num_objectives(), 7.0); c.is_evaluated = true; }
        (*m.op)(ga, c);
        Ints chg;
        for (size_t i = 0; i < std::min(old.size(), c.chromosome.size()); i++) chg.push_back(c.chromosome[i] != old[i]);
        if (c.chromosome.size() != old.size()) chg.push_back(9);
        outs.insert({ std::is_same_v<T, double> ? Ints{} : enc(c.chromosome, nm), clss(c.chromosome, b), chg });
    }
    tr::ev("mut", "enc", Enc<T>::name, "kind", m.kind, "par", m.par, "rate", m.rate, "len", old.size(), "old", a, "wide", wide, "outs", outs, "g", ga.generation_cntr());
}
template<typename T> void fam_mut(tr::Rnd& r)
{
    const size_t len = lenof<T>(r);
    const auto b = bounds<T>(r, len, r.chance(50));
    const int G = r.in(1, 20);
    auto ga = make_ga<T>(len, b, r.in(1, 2), G, r.in(0, G - 1));
    for (int rep = r.in(1, 4); rep--;)
    {
        auto m = mop<T>(r, r.in(0, nmu<T>() - 1), r.chance(20) ? 0 : r.chance(50) ? 16 : r.in(1, 15));
        mut_event<T>(r, *ga, m, randchrom<T>(r, len, b), b, len > 40 ? 3 : 12);
    }
}

// ---- what children and mutants remember (user supplied and built-in operators) ----
template<typename T> Raw flags(const Candidate<T>& c, Names<Chromosome<T>>& nm) { return tr::obj("c", nm.of(c.chromosome), "f", fits(c.fitness), "e", c.is_evaluated); }
template<typename T> void fam_flag(tr::Rnd& r)
{
    const size_t len = size_t(r.in(1, 4));
    const auto b = bounds<T>(r, len, true);
    const int nobj = r.in(1, 2), pc = r.chance(30) ? 0 : r.chance(50) ? 16 : r.in(1, 15), ux = r.in(0, 1);
    auto ga = make_ga<T>(len, b, nobj);
    Xo<T> op;
    bool ran = false;
    Chromosome<T> k1, k2;
    if (ux)
    {
        ga->crossover_method([&](const GA<T>&, const Candidate<T>& p, const Candidate<T>& q) -> CandidatePair<T>
        {
            ran = true;
            Candidate<T> x(p), y(q);
            switch (r.in(0, 5)) { case 0: break; case 1: std::swap(x, y); break; case 2: y = x; break; case 3: x = y; break; case 4: x.chromosome = randchrom<T>(r, len, b); break; case 5: x = Candidate<T>(randchrom<T>(r, len, b)); y.chromosome = randchrom<T>(r, len, b); break; }
            if (r.chance(30)) { x.is_evaluated = true; x.fitness.assign(size_t(nobj), 77.0); }
            if (r.chance(30)) { y.is_evaluated = !y.is_evaluated; y.fitness.assign(size_t(nobj), 78.0); }
            k1 = x.chromosome; k2 = y.chromosome;
            return { std::move(x), std::move(y) };
        });
        ga->crossover_rate(pc / 16.0);
    }
    else { auto x = xop<T>(r, r.in(0, nxo<T>() - 1), pc / 16.0); op = std::move(x.op); }
    for (int rep = 8; rep--;)
    {
        Names<Chromosome<T>> nm;
        auto c1 = randchrom<T>(r, len, b), c2 = r.chance(25) ? c1 : randchrom<T>(r, len, b);
        Candidate<T> p1 = cand<T>(c1, nobj, r), p2 = cand<T>(c2, nobj, r, true, 10);
        const Candidate<T> s1 = p1, s2 = p2;
        ran = false;
        auto [a, c] = ux ? ga->crossover_method()(*ga, p1, p2) : (*op)(*ga, p1, p2);
        Raw p = flags(p1, nm), q = flags(p2, nm), x = flags(a, nm), y = flags(c, nm);
        const bool same = p1.chromosome == s1.chromosome && p2.chromosome == s2.chromosome && p1.fitness == s1.fitness && p2.fitness == s2.fitness;
        tr::ev("kids", "pc", pc, "user", ux > 0, "ran", ran, "p1", p, "p2", q, "x", x, "y", y, "k", ran ? Ints{ nm.of(k1), nm.of(k2) } : Ints{}, "same", same);

        // mutation of a child
        Mu<T> mo;
        const int um = r.in(0, 2), mode = r.in(0, 3);
        int out = -1;
        if (um)
        {
            ga->mutation_method([&](const GA<T>&, const Candidate<T>&, Chromosome<T>& g)
            {
                const Chromosome<T> was = g;
                if (mode == 1) g = randchrom<T>(r, len, b);
                if (mode == 2) { g = randchrom<T>(r, len, b); g = was; }
                if (mode == 3 && !g.empty()) { auto d = randchrom<T>(r, len, b); g.back() = d.back(); }
                out = nm.of(g);
            });
        }
        else { auto m = mop<T>(r, r.in(0, nmu<T>() - 1), r.in(0, 16)); mo = std::move(m.op); }
        Candidate<T> z = a;
        Raw in = flags(z, nm);
        if (um) ga->mutation_method()(*ga, z); else (*mo)(*ga, z);
        tr::ev("mutant", "in", in, "out", flags(z, nm), "user", um > 0, "k", out);
    }
}

// ---- frequencies ----
template<typename T> void rate_event(tr::Rnd& r, bool thorough)
{
    const size_t len = size_t(r.chance(20) ? 1 : r.chance(60) ? r.in(2, 12) : r.in(13, 120));
    BoundsVector<T> b;
    if constexpr (is_bounded<T>) b.assign(len, Bounds<T>(T(0), T(100)));
    auto ga = make_ga<T>(len, b);
    const int rate = r.in(0, 16), N = (thorough ? 40000 : 8000) / int(len > 12 ? 8 : 1);
    auto c = randchrom<T>(r, len, b);
    if constexpr (is_bounded<T>) for (auto& g : c) g = T(40);
    long chg = 0;
    if (r.chance(50))
    {
        auto m = mop<T>(r, r.in(0, nmu<T>() - 1), rate, 16);
        for (int k = 0; k < N; k++)
        {
            Candidate<T> x(c); (*m.op)(*ga, x);
            if constexpr (std::is_same_v<T, PermutationGene>) chg += x.chromosome != c;
            else for (size_t i = 0; i < len; i++) chg += x.chromosome[i] != c[i];
        }
        tr::ev("rate", "enc", Enc<T>::name, "kind", m.kind, "rate", rate, "len", len, "n", N, "chg", chg);
    }
    else                                                                        // how often the crossover is performed
    {
        int ran = 0;
        if constexpr (std::is_same_v<T, double>)
        {
            ga->crossover_method([&](const GA<T>&, const Candidate<T>& p, const Candidate<T>& q) -> CandidatePair<T> { ran++; return { p, q }; });
            ga->crossover_rate(rate / 16.0);
            auto d = c; d[0] = T(60);
            auto p1 = cand<T>(c, 1, r), p2 = cand<T>(d, 1, r);
            for (int k = 0; k < N; k++) ga->crossover_method()(*ga, p1, p2);
            tr::ev("rate", "enc", Enc<T>::name, "kind", "pc", "rate", rate, "len", 1, "n", N, "chg", ran);
        }
        if constexpr (std::is_same_v<T, BinaryGene> || std::is_same_v<T, IntegerGene>)
        {
            auto d = c; for (auto& g : d) { if constexpr (std::is_same_v<T, BinaryGene>) g ^= 1; else g = 60; }
            auto p1 = cand<T>(c, 1, r), p2 = cand<T>(d, 1, r);
            Xo<T> op;
            if constexpr (std::is_same_v<T, BinaryGene>) op = std::make_unique<crossover::binary::Uniform>(1.0, rate / 16.0);
            else op = std::make_unique<crossover::integer::Uniform>(1.0, rate / 16.0);
            for (int k = 0; k < N; k++) { auto [x, y] = (*op)(*ga, p1, p2); for (size_t i = 0; i < len; i++) chg += x.chromosome[i] != c[i]; }
            tr::ev("rate", "enc", Enc<T>::name, "kind", "swap", "rate", rate, "len", len, "n", N, "chg", chg);
        }
    }
}
static int bin8(double u) { return u < -1e-9 || std::isnan(u) ? 8 : u > 1 + 1e-9 ? 9 : u < 0 ? 0 : std::min(7, int(u * 8)); }
static double normal_cdf(double z) { return 0.5 * std::erfc(-z / std::sqrt(2.0)); }
// Histograms of the random part of the real-coded operators, transformed such that the documented distribution is uniform.
static void hist_event(tr::Rnd& r, bool thorough)
{
    const int N = thorough ? 200000 : 40000;
    Ints h(10, 0);
    const int k = r.in(0, 10);
    const size_t clen = size_t(r.in(1, 3)), cat = size_t(r.in(0, int(clen) - 1)); BoundsVector<double> wideb(clen, Bounds<double>(-1e6, 1e6));
    const double x = r.in(-8, 8) / 4.0, y = x + (r.chance(50) ? 1 : -1) * r.in(1, 12) / 4.0, w = std::abs(x - y), lo = std::min(x, y), hi = std::max(x, y);
    Chromosome<double> g1, g2; for (size_t i = 0; i < clen; i++) { g1.push_back(i == cat ? x : r.in(-8, 8) / 2.0); g2.push_back(i == cat ? y : r.in(-8, 8) / 2.0); }
    auto c1 = cand<double>(g1, 1, r), c2 = cand<double>(g2, 1, r);
    std::string kind; Ints par;
    if (k <= 3)
    {
        auto ga = make_ga<double>(clen, wideb);
        auto o = xop<double>(r, k, 1.0); kind = o.kind; par = o.par;
        if (k == 2) { const int e = r.in(0, 80); o.op = std::make_unique<crossover::real::SimulatedBinary>(1.0, e / 16.0); par = { e }; }
        const double al = k == 1 ? par[0] / 16.0 : 0;
        const bool first = c1.fitness[0] >= c2.fitness[0];
        const double best = first ? x : y, other = first ? y : x;
        Ints far(2, 0), outside(2, 0);
        for (int i = 0; i < N / 2; i++)
        {
            auto [a, b] = (*o.op)(*ga, c1, c2);
            for (double c : { a.chromosome[cat], b.chromosome[cat] })
            {
                if (k == 0) h[size_t(bin8((c - lo) / w))]++;
                if (k == 1) h[size_t(bin8((c - (lo - al * w)) / (w * (1 + 2 * al))))]++;
                if (k == 3) h[size_t(bin8((c - best) / (best - other)))]++;
            }
            const double l = std::min(a.chromosome[cat], b.chromosome[cat]), u = std::max(a.chromosome[cat], b.chromosome[cat]);
            if (k == 2) { outside[0] += l < lo; outside[1] += u > hi; }
        }
        if (k == 2)
        {
            // the larger the parameter, the more children are far from their parents (as documented)
            for (int z = 0; z < 2; z++)
            {
                auto op = crossover::real::SimulatedBinary(1.0, z ? par[0] / 16.0 + 3 : par[0] / 16.0);
                for (int i = 0; i < N / 2; i++) { auto [a, b] = op(*ga, c1, c2); for (double c : { a.chromosome[cat], b.chromosome[cat] }) far[size_t(z)] += c < lo - w || c > hi + w; }
            }
            // with the parents in the middle of the bounds the two directions are alike
            Ints low(8, 0), up(8, 0);
            {
                const double d = w * r.in(1, 16) / 8.0; BoundsVector<double> tight(clen, Bounds<double>(-1e6, 1e6)); tight[cat] = Bounds<double>(lo - d, hi + d);
                auto gb = make_ga<double>(clen, tight);
                for (int i = 0; i < N / 2; i++)
                {
                    auto [a, b] = (*o.op)(*gb, c1, c2);
                    const double l = std::min(a.chromosome[cat], b.chromosome[cat]), u = std::max(a.chromosome[cat], b.chromosome[cat]), mid = (lo + hi) / 2, half = w / 2 + d;
                    low[size_t(std::clamp(int((mid - l) / half * 7.999), 0, 7))]++; up[size_t(std::clamp(int((u - mid) / half * 7.999), 0, 7))]++;
                }
            }
            tr::ev("sbx", "n", N / 2, "out", outside, "far", far, "par", par, "low", low, "up", up);
            return;
        }
    }
    else
    {
        const int G = 10, g = r.in(0, 9);
        // one to three genes, each with its own interval; the genes are measured in their own interval, scaled to [0, 1]
        const int len = r.in(1, 3), at = r.in(0, len - 1); BoundsVector<double> bs; Chromosome<double> from;
        const double v = r.in(4, 12) / 16.0;
        for (int i = 0; i < len; i++)
        {
            const double a = r.chance(30) ? 0 : r.in(-40, 40) / 4.0, wd = std::ldexp(1.0, r.in(-3, 6));
            bs.push_back(Bounds<double>(a, a + wd)); from.push_back(a + wd * (i == at ? v : r.in(0, 16) / 16.0));
        }
        const double at_lo = bs[size_t(at)].lower(), at_w = bs[size_t(at)].upper() - at_lo;
        auto ga = make_ga<double>(size_t(len), bs, 1, G, k == 5 ? g : 0);
        const int pr = k == 5 ? r.in(0, 48) : k == 6 ? r.in(80, 1600) : r.in(0, 320);
        Mu<double> m;
        switch (k)
        {
            case 4: case 8: kind = "mUniform"; m = std::make_unique<mutation::real::Uniform>(1.0); break;
            case 5: kind = "NonUniform"; m = std::make_unique<mutation::real::NonUniform>(1.0, pr / 16.0); break;
            case 6: kind = "Gauss"; m = std::make_unique<mutation::real::Gauss>(1.0, pr / 16.0); break;
            case 7: kind = "Polynomial"; m = std::make_unique<mutation::real::Polynomial>(1.0, pr / 16.0); break;
            default: kind = "Boundary"; m = std::make_unique<mutation::real::Boundary>(1.0); break;
        }
        par = { pr, g, len, at };
        for (int i = 0; i < N; i++)
        {
            Candidate<double> c(from);
            (*m)(*ga, c);
            const double z = (c.chromosome[size_t(at)] - at_lo) / at_w;
            double u = z;
            if (k == 5) { const double e = std::pow(1.0 - g / double(G), pr / 16.0), mu = z < v ? (v - z) / v : (z - v) / (1 - v); u = 1 - std::pow(1 - mu, 1 / e); u = z < v ? 0.5 - u / 2 : 0.5 + u / 2; }
            if (k == 6) u = normal_cdf((z - v) * (pr / 16.0));
            if (k == 7) { const double eta = pr / 16.0; u = z < v ? std::pow(z / v, 1 + eta) / 2 : 1 - std::pow((1 - z) / (1 - v), 1 + eta) / 2; }
            if (k >= 9) u = z == 0 ? (i % 4) / 8.0 + 0.01 : z == 1 ? (i % 4) / 8.0 + 0.51 : -1;
            h[size_t(bin8(u))]++;
        }
    }
    tr::ev("hist", "kind", kind, "par", par, "n", N, "h", h);
}
static void ihist_event(tr::Rnd& r, bool thorough)          // the integer mutation: uniform over all other values
{
    const int N = thorough ? 200000 : 40000, lo = r.in(-3, 3), at = r.in(0, 8);
    BoundsVector<IntegerGene> b(1, Bounds<IntegerGene>(lo, lo + 8));
    auto ga = make_ga<IntegerGene>(1, b);
    mutation::integer::Uniform m(1.0);
    Ints h(10, 0);
    for (int i = 0; i < N; i++)
    {
        Candidate<IntegerGene> c(Chromosome<IntegerGene>{ lo + at });
        m(*ga, c);
        const long d = c.chromosome[0] - lo;
        h[size_t(d == at ? 8 : d < 0 || d > 8 ? 9 : d < at ? d : d - 1)]++;
    }
    tr::ev("hist", "kind", "iUniform", "par", Ints{ at }, "n", N, "h", h);
}

// ---- whole runs with built-in operators: every chromosome that is evaluated, kept or returned ----
template<typename T> void fam_run(tr::Rnd& r)
{
    const size_t len = lenof<T>(r);
    const auto b = bounds<T>(r, len, r.chance(30));
    const int nobj = r.in(1, 3), n = r.in(2, 12), gens = r.in(1, 12);
    execution_threads(size_t(r.in(1, 4)));
    auto x = xop<T>(r, r.in(0, nxo<T>() - 1), r.chance(20) ? 0.0 : r.chance(40) ? 1.0 : 0.7);
    auto m = mop<T>(r, r.in(0, nmu<T>() - 1), r.chance(20) ? 0 : r.chance(40) ? 16 : r.in(1, 15));
    const int alg = nobj == 1 ? 0 : r.in(1, 2), def = r.in(0, 3);
    Ints eq; for (auto& i : b) eq.push_back(i.lower() == i.upper());
    tr::ev("run", "enc", Enc<T>::name, "len", len, "xo", x.kind, "xpar", x.par, "mu", m.kind, "mpar", m.par, "rate", m.rate, "nobj", nobj, "n", n, "gens", gens, "alg", alg, "def", def, "eq", eq);
    std::mutex mx; std::set<std::pair<int, Ints>> seen;
    Names<T> nm;
    auto look = [&](int where, const Chromosome<T>& c)
    {
        Ints code;
        if constexpr (is_bounded<T>) code = clss(c, b); else code = enc(c, nm);
        std::lock_guard _(mx);
        if (seen.size() < 60 && seen.insert({ where, code }).second) tr::ev("ch", "at", where, "g", code);
        else if (seen.size() >= 60 && is_bounded<T>) for (int v : code) if (v < -1 || v > 1) { tr::ev("ch", "at", where, "g", code); break; }
    };
    typename Enc<T>::GAT ga{ size_t(n) };
    if (!(def & 1)) ga.crossover_method(std::move(x.op));
    if (!(def & 2)) ga.mutation_method(std::move(m.op));
    if (alg == 0 && !(def & 1)) ga.algorithm(algorithm::SingleObjective{});
    if (alg == 1) ga.algorithm(algorithm::NSGA2{});
    if (alg == 2) ga.algorithm(algorithm::NSGA3{});
    ga.on_generation_end([&](const GaInfo& g) { for (auto& c : static_cast<const GA<T>&>(g).population()) look(2, c.chromosome); });
    Population<T> init;
    if (r.chance(40)) for (int i = r.in(1, n + 2); i--;) init.push_back(Candidate<T>(randchrom<T>(r, len, b)));
    Candidates<T> s;
    auto f = [&](const Chromosome<T>& c) { look(1, c); };
    if constexpr (is_bounded<T>) s = ga.solve(FitFn<T>(len, nobj, f), b, size_t(gens), init); else s = ga.solve(FitFn<T>(len, nobj, f), size_t(gens), init);
    for (auto& c : s) look(3, c.chromosome);
    tr::ev("ret", "n", s.size());
    execution_threads(1);
}

// ---- the crossover kernels, called directly with chosen points, for both their versions ----
template<typename T> void fam_kern(tr::Rnd& r)
{
    namespace d = crossover::dtl;
    const int n = r.in(1, r.chance(20) ? 40 : 9);
    Ints name(size_t(n), 0); for (int i = 0; i < n; i++) name[size_t(i)] = i;
    if (std::is_signed_v<T>) for (int i = 0, v = -r.in(0, 50); i < n; i++) name[size_t(i)] = v += r.in(1, 9);         // any distinct genes
    auto perm = [&] { Ints q(static_cast<size_t>(n), 0); for (int i = 0; i < n; i++) q[size_t(i)] = i; for (int i = n - 1; i > 0; i--) std::swap(q[size_t(i)], q[size_t(r.in(0, i))]); return q; };
    const Ints a = perm(), b = r.chance(10) ? a : perm();
    auto make = [&](const Ints& q) { Candidate<T> c; for (int x : q) c.chromosome.push_back(T(name[size_t(x)])); return c; };
    auto back = [&](const Candidate<T>& c) { Ints q; for (T x : c.chromosome) { int k = -1; for (int i = 0; i < n; i++) if (name[size_t(i)] == int(x)) k = i; q.push_back(k); } return q; };
    const Candidate<T> p1 = make(a), p2 = make(b), q1 = p1, q2 = p2;
    std::set<Ints> done;
    for (int k = 0; k < 12; k++)
    {
        int f = r.in(0, n), l = r.in(0, n); if (f > l) std::swap(f, l);
        Ints idx; for (int i = 0; i < n; i++) if (r.chance(40)) idx.push_back(i);
        std::vector<size_t> ix(idx.begin(), idx.end()); for (size_t i = ix.size(); i > 1; i--) std::swap(ix[i - 1], ix[size_t(r.in(0, int(i) - 1))]);
        Ints pts; for (int i = r.in(0, 5); i--;) pts.push_back(r.in(0, n));
        const int z = r.in(0, 8); static const char* kn[] = { "Order1", "Order2", "Position", "Cycle", "Edge", "PMX", "SinglePoint", "TwoPoint", "NPoint" };
        std::vector<Ints> out; Ints par;
        auto pair = [&](const CandidatePair<T>& c) { out = { back(c.first), back(c.second) }; };
        switch (z)
        {
            case 0: par = { f + 1, l }; out = { back(d::order1CrossoverImpl(p1, p2, size_t(f), size_t(l))) }; break;
            case 1: par = { f + 1, l }; out = { back(d::order2CrossoverImpl(p1, p2, size_t(f), size_t(l))) }; break;
            case 2: for (int i : idx) par.push_back(i + 1); out = { back(d::positionCrossoverImpl(p1, p2, std::span<const size_t>(ix))) }; break;
            case 3: pair(d::cycleCrossoverImpl(p1, p2)); break;
            case 4: if (n < 2) continue; out = { back(d::edgeCrossoverImpl(p1, p2)) }; break;
            case 5: par = { f + 1, l }; out = { back(d::pmxCrossoverImpl(p1, p2, size_t(f), size_t(l))) }; break;
            case 6: par = { f }; pair(d::singlePointCrossoverImpl(p1, p2, size_t(f))); break;
            case 7: par = { f, l }; pair(d::twoPointCrossoverImpl(p1, p2, r.chance(50) ? std::pair{ size_t(f), size_t(l) } : std::pair{ size_t(l), size_t(f) })); break;
            default: par = pts; { small_vector<size_t> cp(pts.begin(), pts.end()); pair(d::nPointCrossoverImpl(p1, p2, cp)); }
        }
        tr::ev("kern", "kind", kn[z], "a", a, "b", b, "par", par, "out", out, "same", p1.chromosome == q1.chromosome && p2.chromosome == q2.chromosome);
    }
}
// ---- how many edges of its parents the child of the edge crossover has ----
static void edge_event(tr::Rnd& r)
{
    const size_t n = size_t(r.in(8, 24)); int kept = 0, all = 0;
    auto ga = make_ga<PermutationGene>(n, {}, 1);
    crossover::perm::Edge op{ 1.0 };
    for (int k = 0; k < 100; k++)
    {
        auto c1 = randchrom<PermutationGene>(r, n, {}), c2 = randchrom<PermutationGene>(r, n, {});
        std::set<std::pair<PermutationGene, PermutationGene>> e;
        for (auto& c : { c1, c2 }) for (size_t i = 0; i < n; i++) { auto x = c[i], y = c[(i + 1) % n]; e.insert({ x, y }); e.insert({ y, x }); }
        auto [x, y] = op(*ga, cand<PermutationGene>(c1, 1, r), cand<PermutationGene>(c2, 1, r));
        for (auto& c : { x.chromosome, y.chromosome }) for (size_t i = 0; i + 1 < n; i++) { all++; kept += e.contains({ c[i], c[i + 1] }); }
    }
    tr::ev("edges", "n", n, "kept", kept, "all", all);
}

// ---- every outcome that the definition of an operator allows is reached ----
template<typename T> void cover_event(tr::Rnd& r, bool mut)
{
    const size_t len = size_t(r.in(1, 5)); const int N = 6000;
    BoundsVector<T> b; if constexpr (is_bounded<T>) b.assign(len, Bounds<T>(T(0), T(100)));
    auto ga = make_ga<T>(len, b); Names<T> nm; std::set<std::vector<Ints>> outs;
    auto c1 = randchrom<T>(r, len, b);
    if (mut)
    {
        if constexpr (std::is_same_v<T, PermutationGene>)
        {
            auto m = mop<T>(r, r.in(0, nmu<T>() - 1), 16); if (m.kind == "Shuffle" && len == 5) return;
            const Ints a = enc(c1, nm);
            for (int i = 0; i < N; i++) { Candidate<T> c(c1); (*m.op)(*ga, c); outs.insert({ enc(c.chromosome, nm) }); }
            tr::ev("cover", "mut", true, "enc", Enc<T>::name, "kind", m.kind, "par", m.par, "p1", a, "p2", Ints{}, "outs", outs);
        }
        return;
    }
    if constexpr (!std::is_same_v<T, double>)
    {
        auto x = xop<T>(r, r.in(0, nxo<T>() - 1), 1.0); if (x.kind == "Cycle" || x.kind == "Edge") return;
        if (x.kind == "Uniform") { if constexpr (std::is_same_v<T, BinaryGene>) x.op = std::make_unique<crossover::binary::Uniform>(1.0, 0.5); if constexpr (std::is_same_v<T, IntegerGene>) x.op = std::make_unique<crossover::integer::Uniform>(1.0, 0.5); x.par = { 8 }; }
        auto c2 = c1;
        for (size_t i = 0; i < len; i++) { if constexpr (std::is_same_v<T, BinaryGene>) c2[i] = T(1 - c1[i]); else if constexpr (std::is_same_v<T, IntegerGene>) { c1[i] = T(i); c2[i] = T(50 + i); } }
        if constexpr (std::is_same_v<T, PermutationGene>) c2 = randchrom<T>(r, len, b);
        const Ints a = enc(c1, nm), d = enc(c2, nm); auto p1 = cand<T>(c1, 1, r), p2 = cand<T>(c2, 1, r);
        for (int i = 0; i < N; i++) { auto [x1, x2] = (*x.op)(*ga, p1, p2); outs.insert({ enc(x1.chromosome, nm), enc(x2.chromosome, nm) }); }
        tr::ev("cover", "mut", false, "enc", Enc<T>::name, "kind", x.kind, "par", x.par, "p1", a, "p2", d, "outs", outs);
    }
}
// ---- genes and children are drawn independently: counts of the four combinations of two events of probability one half ----
template<typename T> void joint_event(tr::Rnd& r, bool mut)
{
    const int N = 20000; Ints q(4, 0), z(4, 0); std::string kind; bool kids = false; const size_t len = 5, i0 = size_t(r.in(0, 4)), i1 = (i0 + size_t(r.in(1, 4))) % 5;
    BoundsVector<T> b; if constexpr (is_bounded<T>) b.assign(len, Bounds<T>(T(0), std::is_same_v<T, double> ? T(1) : T(8)));
    auto put = [](Ints& h, bool u, bool v) { h[size_t(u) * 2 + size_t(v)]++; };
    if constexpr (std::is_same_v<T, double>)
    {
        if (mut)
        {
            auto ga = make_ga<T>(len, b, 1, 10, 3); auto m = mop<T>(r, r.in(0, 3), 16, r.in(32, 64)); kind = m.kind;
            for (int i = 0; i < N; i++) { Candidate<T> c(Chromosome<T>(len, 0.5)); (*m.op)(*ga, c); put(q, c.chromosome[i0] > 0.5, c.chromosome[i1] > 0.5); auto far = [&](size_t g) { return std::abs(c.chromosome[g] - 0.5) > 0.25; }; if (m.kind == "Uniform") put(z, far(i0), far(i1)); }
        }
        else
        {
            BoundsVector<T> w(len, Bounds<T>(-100.0, 100.0)); auto ga = make_ga<T>(len, w); auto x = xop<T>(r, r.in(1, 3), 1.0); kind = x.kind; if (x.kind == "BLXa") { x.op = std::make_unique<crossover::real::BLXa>(1.0, 0.5); }
            if (x.kind == "SimulatedBinary") x.op = std::make_unique<crossover::real::SimulatedBinary>(1.0, 2.0);
            auto p1 = cand<T>(Chromosome<T>(len, 1.0), 1, r), p2 = cand<T>(Chromosome<T>(len, 0.0), 1, r); p1.fitness = { 2.0 }; p2.fitness = { 1.0 }; kids = true;
            for (int i = 0; i < N; i++)
            {
                auto [a, c] = (*x.op)(*ga, p1, p2); auto up = [&](double g) { return x.kind == "Wright" ? g > 1.5 : g > 0.5; };
                if (x.kind == "SimulatedBinary") { auto out = [&](size_t g) { return std::min(a.chromosome[g], c.chromosome[g]) < 0; }; put(q, out(i0), out(i1)); }
                else { put(q, up(a.chromosome[i0]), up(c.chromosome[i0])); if (x.kind == "BLXa") put(z, up(a.chromosome[i0]), up(a.chromosome[i1])); }
            }
        }
    }
    else if constexpr (!std::is_same_v<T, PermutationGene>)
    {
        auto ga = make_ga<T>(len, b); Chromosome<T> c1(len, T(0)), c2(len, T(1));
        if (mut)
        {
            auto m = mop<T>(r, 0, 8); kind = m.kind;
            for (int i = 0; i < N; i++) { Candidate<T> c(c1); (*m.op)(*ga, c); put(q, c.chromosome[i0] != 0, c.chromosome[i1] != 0); }
            if constexpr (std::is_same_v<T, IntegerGene>) { auto m1 = mop<T>(r, 0, 16); for (int i = 0; i < N; i++) { Candidate<T> c(c1); (*m1.op)(*ga, c); put(z, c.chromosome[i0] > 4, c.chromosome[i1] > 4); } }
        }
        else
        {
            Xo<T> op; kind = "Uniform"; if constexpr (std::is_same_v<T, BinaryGene>) op = std::make_unique<crossover::binary::Uniform>(1.0, 0.5); else op = std::make_unique<crossover::integer::Uniform>(1.0, 0.5);
            auto p1 = cand<T>(c1, 1, r), p2 = cand<T>(c2, 1, r);
            for (int i = 0; i < N; i++) { auto [a, c] = (*op)(*ga, p1, p2); put(q, a.chromosome[i0] != 0, a.chromosome[i1] != 0); }
        }
    }
    else return;
    tr::ev("joint", "mut", mut, "enc", Enc<T>::name, "kind", kind, "kids", kids, "n", N, "q", q, "z", z);
}

// The candidates that a run generates for its first population: how often every value, pair of values and permutation occurs.
template<typename T> void gen_event(tr::Rnd& r)
{
    const int N = 3000; const bool perm = std::is_same_v<T, PermutationGene>; const size_t len = size_t(r.in(perm ? 2 : 1, perm ? 5 : 6));
    Ints lo, vals; BoundsVector<T> b;
    for (size_t i = 0; i < len; i++)
    {
        const int k = perm ? int(len) : std::is_same_v<T, BinaryGene> ? 2 : std::is_same_v<T, double> ? 4 : r.in(1, 4), l = std::is_same_v<T, BinaryGene> || perm ? 0 : r.in(-5, 5);
        vals.push_back(k); lo.push_back(l);
        if constexpr (is_bounded<T>) b.push_back(Bounds<T>(T(l), std::is_same_v<T, double> ? T(l + (i % 2 ? 1 : 40)) : T(l + k - 1)));
    }
    const size_t given = r.chance(30) ? size_t(r.in(1, 5)) : 0;
    typename Enc<T>::GAT ga{ size_t(N) }; ga.max_gen(1); ga.algorithm(algorithm::SingleObjective{});
    auto cls = [&](const Chromosome<T>& c, size_t i) -> int
    {
        if constexpr (std::is_same_v<T, double>) { const double w = b[i].upper() - b[i].lower(), t = (c[i] - b[i].lower()) / w; return t < 0 || t > 1 ? -1 : std::min(3, int(t * 4)); }
        else return int(c[i]) - lo[i];
    };
    std::vector<Ints> pop;
    ga.on_generation_end([&](const GaInfo& gi) { const auto& p = static_cast<const GA<T>&>(gi).population(); for (size_t i = given; i < p.size(); i++) { Ints v; for (size_t j = 0; j < len; j++) v.push_back(p[i].chromosome.size() == len ? cls(p[i].chromosome, j) : -1); pop.push_back(v); } });
    Population<T> init; for (size_t i = 0; i < given; i++) { Chromosome<T> c; for (size_t j = 0; j < len; j++) c.push_back(perm ? T(j) : T(lo[j])); init.emplace_back(c); }
    if constexpr (is_bounded<T>) ga.solve(FitFn<T>(len, 1), b, init); else ga.solve(FitFn<T>(len, 1), init);
    const size_t i = size_t(r.in(0, int(len) - 1)), j = len > 1 ? (i + size_t(r.in(1, int(len) - 1))) % len : i;
    bool bad = false; for (auto& v : pop) for (size_t k = 0; k < len; k++) bad = bad || v[k] < 0 || v[k] >= vals[k];
    Ints one, two, next, lag, whole;
    if (!bad)
    {
        one.assign(size_t(vals[i]), 0); two.assign(size_t(vals[i] * vals[j]), 0); next = Ints(size_t(vals[i] * vals[i]), 0); lag = Ints(size_t(vals[j] * vals[i]), 0);
        std::map<Ints, int> w;
        for (size_t k = 0; k < pop.size(); k++) { one[size_t(pop[k][i])]++; two[size_t(pop[k][i] * vals[j] + pop[k][j])]++; if (k % 2) { next[size_t(pop[k - 1][i] * vals[i] + pop[k][i])]++; lag[size_t(pop[k - 1][j] * vals[i] + pop[k][i])]++; } w[pop[k]]++; }
        if (perm && len <= 4) for (auto& [k, c] : w) whole.push_back(c);
    }
    tr::ev("gen0", "enc", Enc<T>::name, "n", pop.size(), "bad", bad, "vi", vals[i], "vj", vals[j], "same", i == j, "one", one, "two", two, "next", next, "lag", lag, "whole", whole, "len", len);
}
int main(int argc, char** argv)
{
    tr::Args a = tr::parse(argc, argv);
    std::string fam = "xo"; int cnt = 0;
    for (int i = 1; i < argc; i++) { if (!strcmp(argv[i], "--fam")) fam = argv[i + 1]; if (!strcmp(argv[i], "--n")) cnt = atoi(argv[i + 1]); }
    const std::vector<std::string> gen = a.ops.empty() ? std::vector<std::string>{} : tr::lines(a.ops);
    return tr::run(a, long(gen.size()) + long(cnt) * (a.thorough ? 10 : 1), [&](long k)
    {
        tr::Rnd r(a.seed * 1000003 + uint64_t(k) * 31 + fam.size());
        rng::prng.seed(uint64_t(a.seed * 7919 + k));
        tr::begin(k, tr::obj("fam", fam));
        if (k < long(gen.size()))
        {
            // "x <kind> <p1...> / <p2...>" or "m <kind> <range> <old...>"
            std::vector<int> v; const char* c = gen[size_t(k)].c_str(); char* e;
            for (long z = strtol(c, &e, 10); e != c; z = strtol(c, &e, 10)) { v.push_back(int(z)); c = e; }
            const bool isx = v[0] == 1;
            using P = PermutationGene;
            Chromosome<P> ch(v.begin() + 3, v.end());
            const size_t len = isx ? ch.size() / 2 : ch.size();
            static std::map<size_t, std::unique_ptr<PermutationGA>> gas;
            auto& ga = gas[len]; if (!ga) ga = make_ga<P>(len, {});
            if (isx)
            {
                auto x = xop<P>(r, v[1], 1.0);
                xo_event<P>(r, *ga, x, cand<P>(Chromosome<P>(ch.begin(), ch.begin() + long(len)), 1, r), cand<P>(Chromosome<P>(ch.begin() + long(len), ch.end()), 1, r), {}, true, 60);
            }
            else { auto m = mop<P>(r, v[1], 16, v[2]); mut_event<P>(r, *ga, m, ch, {}, 60); }
            return;
        }
        auto byenc = [&](auto f)
        {
            switch (r.in(0, 3)) { case 0: f(BinaryGene{}); break; case 1: f(IntegerGene{}); break; case 2: f(PermutationGene{}); break; default: f(RealGene{}); }
        };
        if (fam == "xo") { if (r.chance(60)) r.chance(50) ? fam_xo<PermutationGene>(r, true) : fam_xo<RealGene>(r, true); else r.chance(70) ? (r.chance(50) ? fam_xo<BinaryGene>(r, false) : fam_xo<IntegerGene>(r, false)) : byenc([&](auto t) { fam_xo<decltype(t)>(r, false); }); }
        else if (fam == "mut") { byenc([&](auto t) { fam_mut<decltype(t)>(r); }); }
        else if (fam == "flag") byenc([&](auto t) { fam_flag<decltype(t)>(r); });
        else if (fam == "rate") byenc([&](auto t) { rate_event<decltype(t)>(r, a.thorough); });
        else if (fam == "coverx" || fam == "coverm") byenc([&](auto t) { using T = decltype(t); const bool m = fam == "coverm"; if (r.chance(30)) joint_event<T>(r, m); else if (m) cover_event<PermutationGene>(r, m); else cover_event<T>(r, m); });
        else if (fam == "histx") { do { tr::Rnd q = r; if (q.in(0, 10) <= 3) break; r.next(); } while (true); hist_event(r, a.thorough); }
        else if (fam == "histm") { if (r.chance(10)) ihist_event(r, a.thorough); else { do { tr::Rnd q = r; if (q.in(0, 10) > 3) break; r.next(); } while (true); hist_event(r, a.thorough); } }
        else if (fam == "kern") { if (r.chance(4)) edge_event(r); else r.chance(50) ? fam_kern<PermutationGene>(r) : fam_kern<int>(r); }
        else if (fam == "gen") byenc([&](auto t) { gen_event<decltype(t)>(r); });
        else if (fam == "run") byenc([&](auto t) { fam_run<decltype(t)>(r); });
    });
}
