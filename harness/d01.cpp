// D01: operation sequences on the fitness cache.
#include "trace.hpp"
#include "utility/cache.hpp"
#include <sstream>
#include <memory>
using namespace gapp::detail;

struct BadKey { int k; bool operator==(const BadKey&) const = default; };
template<> struct std::hash<BadKey> { size_t operator()(const BadKey& b) const noexcept { return size_t(b.k % 2); } };
static int KEYS;

template<typename Key> struct Driver {
    static Key key(int k) { if constexpr (std::is_same_v<Key, int>) return k; else if constexpr (std::is_same_v<Key, BadKey>) return BadKey{ k }; else return std::string(size_t(20 + k), char('a' + k)); }
    using C = fifo_cache<Key, int>;
    std::unique_ptr<C> c[2];
    Driver() { c[0] = std::make_unique<C>(); c[1] = std::make_unique<C>(); }

    tr::Raw obs(int s)
    {
        const C& x = *c[s];
        std::vector<int> vals;
        for (int k = 1; k <= KEYS; k++)
        {
            const int* p = x.get(key(k));
            int* q = c[s]->get(key(k));
            if (p != q || (p != nullptr) != x.contains(key(k))) vals.push_back(-77); else vals.push_back(p ? *p : -1);
        }
        std::string o = "["; tr::put(o, x.capacity()); o += ','; tr::put(o, x.size()); o += ','; tr::put(o, x.empty()); o += ','; tr::put(o, x.full()); o += ','; tr::put(o, vals); o += ']';
        return { o };
    }
    void op(const std::string& name, int s, std::vector<int> a)
    {
        C& x = *c[s]; C& y = *c[1 - s];
        try {
            if (name == "new") c[s] = std::make_unique<C>(size_t(a[0]));
            else if (name == "ins") x.insert(key(a[0]), a[1]);
            else if (name == "tryins") x.try_insert(key(a[0]), a[1]);
            else if (name == "range")
            {
                std::vector<Key> ks; for (int i = 0; i < a[0]; i++) ks.push_back(key(a[size_t(1 + 2 * i)]));
                int i = 0; std::vector<int> vs; for (; i < a[0]; i++) vs.push_back(a[size_t(2 + 2 * i)]);
                x.insert(ks.begin(), ks.end(), [&](const Key& k) { return vs[size_t(&k - ks.data())]; });
            }
            else if (name == "reset") x.reset(size_t(a[0]));
            else if (name == "clear") x.clear();
            else if (name == "copyctor") { auto n = std::make_unique<C>(x); c[s] = std::move(n); }
            else if (name == "movector") { auto n = std::make_unique<C>(std::move(x)); c[s] = std::move(n); }
            else if (name == "selfcopy") { C& r = x; x = r; }
            else if (name == "swap") { using std::swap; swap(x, y); }
            else if (name == "copyassign") x = y;
            else if (name == "moveassign") { x = std::move(y); a = { int(y.capacity()) }; }
        } catch (const std::exception& e) { tr::ev("exception", "what", e.what()); return; }
        std::string st = "[" + obs(0).s + "," + obs(1).s + "]";
        tr::ev(name.c_str(), "s", s, "a", a, "st", tr::Raw{ st }, "eq", bool(*c[0] == *c[1]));
    }
};

template<typename Key> void random_scenario(tr::Rnd& r, int cap, int len, bool moved_ok)
{
    Driver<Key> d;
    d.op("new", 0, { cap }); d.op("new", 1, { r.in(0, 4) });
    for (int i = 0; i < len; i++)
    {
        int s = r.chance(70) ? 0 : 1, w = r.in(0, 99);
        if (w < 45) d.op("ins", s, { r.in(1, KEYS), r.in(1, 99) });
        else if (w < 55) d.op("tryins", s, { r.in(1, KEYS), r.in(1, 99) });
        else if (w < 75) { int n = r.in(0, 2 * cap + 2); std::vector<int> a{ n }; for (int j = 0; j < n; j++) { a.push_back(r.in(1, KEYS)); a.push_back(r.in(1, 99)); } d.op("range", s, a); }
        else if (w < 79) d.op("reset", s, { r.in(0, 2 * cap + 1) });
        else if (w < 81) d.op("clear", s, {});
        else if (w < 84) d.op("copyctor", s, {});
        else if (w < 87) d.op("movector", s, {});
        else if (w < 90) d.op("selfcopy", s, {});
        else if (w < 94) d.op("swap", s, {});
        else if (w < 97) d.op("copyassign", s, {});
        else { d.op("moveassign", s, {}); d.op("reset", 1 - s, { r.in(0, cap) }); }
    }
}

int main(int argc, char** argv)
{
    auto args = tr::parse(argc, argv);
    auto gen = tr::lines(args.ops);
    const long per = 12;                                   // generated behaviours per scenario
    const long ng = (long(gen.size()) + per - 1) / per;
    const long nr = args.thorough ? 8000 : 1200;
    return tr::run(args, ng + nr, [&](long id) {
        tr::Rnd r(args.seed * 1000003 + uint64_t(id));
        if (id < ng)
        {
            KEYS = 4;
            tr::begin(id, tr::obj("keys", KEYS, "kind", "gen"));
            for (long g = id * per; g < std::min<long>((id + 1) * per, long(gen.size())); g++)
            {
                auto play = [&](auto& d) {
                    tr::ev("fresh");
                    std::istringstream is(gen[size_t(g)]); std::string one;
                    d.op("new", 1, { int(g % 4) });
                    while (std::getline(is, one, ';')) { std::istringstream os(one); std::string n; os >> n; std::vector<int> a; int v; while (os >> v) a.push_back(v); d.op(n, 0, a); }
                };
                if (g % 3 == 0) { Driver<int> d; play(d); } else if (g % 3 == 1) { Driver<BadKey> d; play(d); } else { Driver<std::string> d; play(d); }
            }
            return;
        }
        KEYS = r.in(3, 12);
        int cap = r.in(0, 8), len = r.in(5, 40);
        if (r.chance(10)) { KEYS = 40; cap = r.in(10, 30); len = 60; }
        tr::begin(id, tr::obj("keys", KEYS, "kind", "random", "cap", cap));
        switch (id % 3) { case 0: random_scenario<int>(r, cap, len, true); break; case 1: random_scenario<BadKey>(r, cap, len, true); break; default: random_scenario<std::string>(r, cap, len, true); }
    });
}
