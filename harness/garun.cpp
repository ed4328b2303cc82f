#include "garun.hpp"
#include <optional>

static Cfg randcfg(tr::Rnd& r, const std::string& fam)
{
    Cfg c;
    c.n = r.chance(15) ? 1 : r.in(2, 6);
    c.maxgen = r.chance(15) ? 1 : r.in(2, 5);
    c.gens = r.chance(40) ? r.in(1, 4) : 0;
    c.len = r.in(1, 4);
    c.nobj = r.chance(50) ? 1 : r.in(2, 3);
    c.cache = r.chance(50) ? 0 : r.in(1, 3);
    c.dyn = r.chance(25);
    c.vary = c.dyn && r.chance(60);
    c.keep = r.chance(40);
    c.rep = r.chance(50);
    c.ustop = r.chance(80); c.cb = r.chance(85); c.met = r.chance(85);
    c.stopat = r.chance(40) ? r.in(0, 4) : 1000;
    c.alg = r.chance(70) ? 0 : c.nobj == 1 ? (r.chance(50) ? 5 : r.in(1, 2)) : (r.chance(30) ? 1 : r.in(3, 4));
    c.pc = r.chance(20) ? 0.0 : r.chance(40) ? 1.0 : 0.8;
    c.K = r.chance(50) ? 3 : 8;
    c.ninit = r.chance(40) ? r.in(1, 8) : 0;
    c.inite = r.in(0, 2);
    c.pick = r.chance(50) ? 0 : r.in(1, 3);
    c.salt = r.in(1, 1000000);
    if (fam == "keep") { c.keep = r.chance(80); c.nobj = r.chance(25) ? 1 : r.in(2, 3); c.alg = r.chance(60) ? 0 : c.nobj == 1 ? 1 : r.in(3, 4); c.dyn = c.vary = false; c.maxgen = r.chance(25) ? 1 : r.in(2, 7); c.gens = 0; }
    if (fam == "cache") { c.cache = r.in(1, 3); c.len = r.in(1, 2); c.maxgen = r.in(3, 6); c.dyn = r.chance(15); c.vary = c.dyn; c.alg = 0; }
    if (fam == "init") { c.ninit = r.in(1, 9); c.maxgen = r.in(1, 2); c.gens = 0; }
    if (fam == "pipe") { c.alg = c.nobj == 1 && r.chance(30) ? 5 : 0; c.stopat = 1000; c.maxgen = r.in(2, 5); }
    if (c.nobj > 1 && (c.alg == 2 || c.alg == 5)) c.alg = 0;
    if (c.nobj == 1 && c.alg >= 3 && c.alg != 5) c.alg = 1;
    if (c.vary) c.keep = false;
    if (!c.ustop && !c.cb && !c.met) c.met = true;             // something has to observe every generation
    if (c.alg != 0 && c.alg != 5) c.n = std::max(c.n, 2);        // the default tournament needs two candidates
    return c;
}

template<typename T> void bounds(World<T>& w, tr::Rnd& r, int len)
{
    w.lo.clear(); w.hi.clear(); w.same = r.chance(30);
    for (int i = 0; i < len; i++)
    {
        int l = r.in(-1, 1), h = l + (r.chance(15) ? 0 : r.in(1, 2));
        if (i > 0 && w.same) { l = int(w.lo[0]); h = int(w.hi[0]); }
        if (std::is_same_v<T, BinaryGene>) { l = 0; h = 1; }
        if (std::is_same_v<T, PermutationGene>) { l = 0; h = len - 1; }
        w.lo.push_back(l); w.hi.push_back(h);
    }
}

template<typename T> void scen(tr::Rnd& r, const std::string& fam, long k)
{
    auto* w = new World<T>;                   // leaked on purpose: the solver's threads may still refer to it after a defect
    Solver<T> s(*w);
    Cfg c = randcfg(r, fam);
    int thr = r.chance(35) ? 1 : r.in(2, 5);
    if (thr != int(execution_threads())) execution_threads(size_t(thr));
    int runs = fam == "reuse" ? r.in(2, 4) : r.chance(25) ? 2 : 1;
    tr::begin(k, tr::obj("fam", fam, "enc", Enc<T>::name, "thr", thr));
    fuzzy = r.chance(20) && !std::is_same_v<T, RealGene>;      // (real chromosomes within the tolerance are equal as well)
    std::optional<math::ScopedTolerances> tol;
    if (fuzzy) tol.emplace(0.5, 0.0);
    for (int j = 0; j < runs; j++)
    {
        if (j > 0)
        {
            Cfg d = randcfg(r, fam);
            if (r.chance(50)) { Cfg e = c; e.salt = d.salt; e.len = d.len; e.gens = d.gens; e.dyn = d.dyn; e.vary = d.vary && !e.keep; e.ninit = d.ninit; e.stopat = d.stopat; c = e; }   // only the problem changes
            else c = d;
        }
        c.thr = thr;
        c.fkind = -1;
        if (fam == "fault" || (fam == "reuse" && r.chance(45)))
        {
            c.fkind = r.in(0, K_CB);
            int per = c.fkind == K_STOP || c.fkind == K_CB || c.fkind == K_PREP || c.fkind == K_NEXT ? 1 : c.n;
            c.fat = r.in(1, per * std::max(1, std::min(c.maxgen, 3)) + (c.fkind == K_FIT));
        }
        bounds(*w, r, c.len);
        if (j == 0) s.make(c);
        else s.apply(c);
        if (r.chance(20)) s.apply(c);
        s.run(c);
    }
    if (fam == "fault")
    {
        c.fkind = -1; c.salt++;
        s.run(c);
    }
    fuzzy = false;
}

// Scripted behaviours generated from the specification (GaGen.tla): one thread, chromosomes are single integers 0..2.
static void scripted(const std::string& line, long k)
{
    static const std::vector<std::vector<int>> tabs[] = { { { 0 }, { 1 }, { 2 } }, { { 0, 1 }, { 1, 0 }, { 1, 1 } }, { { 0, 2 }, { 1, 1 }, { 2, 0 } } };
    execution_threads(1);
    auto* w = new World<IntegerGene>;
    Solver<IntegerGene> s(*w);
    tr::begin(k, tr::obj("fam", "script", "enc", "int", "thr", 1));
    w->scripted = true; w->lo = { 0 }; w->hi = { 2 };
    size_t p = 0; bool made = false;
    std::vector<std::vector<std::string>> ops;
    while (p < line.size())
    {
        size_t e = line.find(';', p); if (e == std::string::npos) e = line.size();
        std::vector<std::string> t; std::string cur;
        for (char ch : line.substr(p, e - p)) { if (ch == ' ') { if (!cur.empty()) t.push_back(cur); cur.clear(); } else cur += ch; }
        if (!cur.empty()) t.push_back(cur);
        if (!t.empty()) ops.push_back(t);
        p = e + 1;
    }
    for (size_t i = 0; i < ops.size(); i++)
    {
        if (ops[i][0] != "run") continue;
        auto a = [&](size_t j) { return std::stoi(ops[i][j]); };
        Cfg c; c.n = a(1); c.maxgen = a(2); c.dyn = a(3); c.cache = a(4); c.keep = a(5); c.rep = a(6); c.pc = 1.0; c.len = 1;
        int tab = a(7); w->table = tabs[tab]; c.nobj = int(tabs[tab][0].size()); c.salt = 1;
        std::vector<Candidate<IntegerGene>> init;
        w->script.clear(); w->sp.clear();
        for (size_t j = 8; j + 1 < ops[i].size(); j += 2)
        {
            Candidate<IntegerGene> x(Chromosome<IntegerGene>{ a(j) });
            if (a(j + 1)) { auto f = tabs[tab][size_t(a(j))]; x.fitness = FitnessVector(f.begin(), f.end()); x.is_evaluated = true; }
            init.push_back(x);
        }
        for (size_t g = i + 1; g < ops.size() && ops[g][0] == "gen"; g++)
        {
            int kind = -1;
            for (size_t j = 1; j < ops[g].size(); j++)
            {
                if (isdigit(ops[g][j][0])) { w->script[kind].push_back(std::stoi(ops[g][j])); continue; }
                for (int q = 0; q < K_N; q++) if (ops[g][j] == KN[q]) kind = q;
            }
        }
        if (!made) s.make(c); else s.apply(c);
        made = true;
        w->c.thr = 1;
        s.run(c, &init);
    }
}

int main(int argc, char** argv)
{
    tr::Args a = tr::parse(argc, argv);
    std::string fam = "all"; int cnt = 0;
    for (int i = 1; i < argc; i++) { if (!strcmp(argv[i], "--fam")) fam = argv[i + 1]; if (!strcmp(argv[i], "--n")) cnt = atoi(argv[i + 1]); }
    std::vector<std::string> gen = a.ops.empty() ? std::vector<std::string>{} : tr::lines(a.ops);
    long n = long(gen.size()) + cnt * (a.thorough ? 8 : 1);
    return tr::run(a, n, [&](long k)
    {
        if (k < long(gen.size())) { scripted(gen[size_t(k)], k); return; }
        tr::Rnd r(mix(a.seed * 1000003 + uint64_t(k), std::hash<std::string>{}(fam)));
        const auto one = [&]
        {
            rng::prng.seed(uint64_t(a.seed * 7919 + k));
            switch (r.in(0, 4))
            {
                case 4: scen<Mixed>(r, fam, k); break;
                case 0: scen<BinaryGene>(r, fam, k); break;
                case 1: scen<IntegerGene>(r, fam, k); break;
                case 2: scen<PermutationGene>(r, fam, k); break;
                case 3: scen<RealGene>(r, fam, k); break;
            }
        };
#ifdef VS_SHIM
        vs::scenario(r.next(), [&] { one(); execution_threads(1); });
#else
        one();
#endif
    });
}
