// The bundled generators: sequences of draws, seeds, copies and jumps.
#include "trace.hpp"
#include <optional>
#include "utility/rng.hpp"
using namespace gapp::rng;
static std::vector<int> w(uint64_t x) { return { int(x & 65535), int(x >> 16 & 65535), int(x >> 32 & 65535), int(x >> 48) }; }
int main(int argc, char** argv)
{
    tr::Args a = tr::parse(argc, argv);
    int cnt = 0; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--n")) cnt = atoi(argv[i + 1]);
    return tr::run(a, long(cnt) * (a.thorough ? 8 : 1), [&](long k)
    {
        tr::Rnd r(a.seed * 1000003 + uint64_t(k) * 37);
        tr::begin(k, tr::obj("fam", "prng"));
        std::optional<Splitmix64> sm[2]; std::optional<Xoroshiro128p> xo[2];
        auto word = [&]() -> uint64_t { switch (r.in(0, 5)) { case 0: return 0; case 1: return ~0ull; case 2: return uint64_t(r.in(0, 5)); case 3: return 1ull << r.in(0, 63); case 4: return 0x9e3779b97f4a7c15ull * uint64_t(-r.in(1, 3)); default: return r.next(); } };
        std::vector<int> none; uint64_t last = 0;
        auto ev = [&](const char* op, int g, const std::vector<int>& v)
        {
            tr::ev(op, "g", g + 1, "w", v, "eqs", sm[0] && sm[1] ? *sm[0] == *sm[1] : true, "eqx", xo[0] && xo[1] ? *xo[0] == *xo[1] : true);
        };
        // no generator exists before it is seeded
        uint64_t s0 = word(); sm[0].emplace(s0); sm[1].emplace(s0); xo[0].emplace(s0); xo[1].emplace(s0);
        tr::ev("init", "w", w(s0));
        for (int n = r.in(4, 40); n--;)
        {
            const int g = r.in(0, 1);
            switch (r.in(0, 12))
            {
                case 0: { last = word(); if (r.chance(50)) sm[g].emplace(last); else sm[g]->seed(last); ev("smseed", g, w(last)); break; }
                case 1: { last = word(); if (r.chance(50)) xo[g].emplace(last); else xo[g]->seed(last); ev("xoseed", g, w(last)); break; }
                case 2: if (r.chance(50)) *sm[g] = *sm[1 - g]; else { Splitmix64 t = *sm[1 - g]; sm[g].emplace(t); } ev("smcopy", g, none); break;
                case 3: if (r.chance(50)) *xo[g] = *xo[1 - g]; else { Xoroshiro128p t = *xo[1 - g]; xo[g].emplace(t); } ev("xocopy", g, none); break;
                case 4: if (r.chance(40)) { if (&xo[g]->jump() != &*xo[g]) ev("badref", g, none); ev("xojump", g, none); } break;
                case 5: case 6: case 7: ev("smnext", g, w((*sm[g])())); break;
                default: ev("xonext", g, w((*xo[g])())); break;
            }
        }
    });
}
