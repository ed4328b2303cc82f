// D04: operation sequences on the dynamic bitset.
#include "trace.hpp"
#include <algorithm>
#include "utility/dynamic_bitset.hpp"
#include <sstream>
#include <memory>
#include <optional>
using namespace gapp::detail;
struct Driver {
    std::unique_ptr<dynamic_bitset> c[2];
    Driver() { c[0] = std::make_unique<dynamic_bitset>(); c[1] = std::make_unique<dynamic_bitset>(); }
    tr::Raw obs(int s)
    {
        const dynamic_bitset& x = *c[s]; dynamic_bitset& y = *c[s];
        std::vector<int> b, rb;
        for (size_t i = 0; i < x.size(); i++) { b.push_back(x[i]); rb.push_back(bool(y[i])); }
        return tr::obj("size", x.size(), "empty", x.empty(), "bits", b, "rbits", rb, "pop", x.popcount(), "any", x.any_set(), "all", x.all_set(), "none", x.none_set(), "f1", x.find_first(true), "f0", x.find_first(false));
    }
    void op(const std::string& n, int s, std::vector<int> a)
    {
        using B = dynamic_bitset;
        B& x = *c[s]; B& y = *c[1 - s];
        auto A = [&](size_t i) { return size_t(a[i]); };
        if (n == "new") c[s] = std::make_unique<B>(A(0));
        else if (n == "newv") c[s] = std::make_unique<B>(A(0), bool(a[1]));
        else if (n == "set") x[A(0)] = bool(a[1]);
        else if (n == "flip") x[A(0)].flip();
        else if (n == "refassign") x[A(0)] = x[A(1)];
        else if (n == "fill") x.fill(bool(a[0]));
        else if (n == "resize") x.resize(A(0), bool(a[1]));
        else if (n == "resize1") x.resize(A(0));
        else if (n == "clear") x.clear();
        else if (n == "compl") c[s] = std::make_unique<B>(~x);
        else if (n == "copyctor") c[s] = std::make_unique<B>(x);
        else if (n == "movector") { B t(std::move(x)); c[s] = std::make_unique<B>(std::move(t)); }
        else if (n == "copyassign") x = y;
        else if (n == "moveassign") { x = std::move(y); c[1 - s] = std::make_unique<B>(); }
        tr::Raw st = obs(s);
        tr::ev(n.c_str(), "s", s, "a", a, "st", st, "eq", bool(*c[0] == *c[1]));
    }
};
int main(int argc, char** argv)
{
    auto args = tr::parse(argc, argv);
    auto gen = tr::lines(args.ops);
    const long per = 8, ng = (long(gen.size()) + per - 1) / per, nr = args.thorough ? 6000 : 1000;
    return tr::run(args, ng + nr, [&](long id) {
        tr::Rnd r(args.seed * 31337 + uint64_t(id));
        if (id < ng)
        {
            tr::begin(id, tr::obj("kind", "gen"));
            for (long g = id * per; g < std::min<long>((id + 1) * per, long(gen.size())); g++)
            {
                tr::ev("fresh");
                Driver d; std::istringstream is(gen[size_t(g)]); std::string one;
                while (std::getline(is, one, ';')) { std::istringstream os(one); std::string n; os >> n; std::vector<int> a; int v; while (os >> v) a.push_back(v); d.op(n, 0, a); }
            }
            return;
        }
        static const int sizes[] = { 0, 1, 2, 31, 62, 63, 64, 65, 66, 100, 126, 127, 128, 129, 191, 192, 193, 255, 256, 257, 320, 330 };
        int mx = r.in(0, 21), len = r.in(5, 25);
        tr::begin(id, tr::obj("kind", "random", "max", sizes[mx]));
        Driver d;
        auto sz = [&] { return r.chance(80) ? sizes[r.in(0, mx)] : r.in(0, sizes[mx]); };
        for (int i = 0; i < len; i++)
        {
            int s = r.chance(75) ? 0 : 1, n = int(d.c[s]->size());
            switch (r.in(0, 14))
            {
                case 0: d.op("new", s, { sz() }); break;
                case 1: d.op("newv", s, { sz(), r.in(0, 1) }); break;
                case 2: case 3: case 4: if (n) d.op("set", s, { r.in(0, n - 1), r.in(0, 1) }); break;
                case 5: if (n) d.op("flip", s, { r.chance(50) ? n - 1 : r.in(0, n - 1) }); break;
                case 6: if (n) d.op("refassign", s, { r.in(0, n - 1), r.in(0, n - 1) }); break;
                case 7: d.op("fill", s, { r.in(0, 1) }); break;
                case 8: case 9: case 10: d.op("resize", s, { sz(), r.in(0, 1) }); break;
                case 11: if (r.chance(50)) d.op("resize1", s, { sz() }); else d.op("clear", s, {}); break;
                case 12: d.op("compl", s, {}); break;
                case 13: d.op(r.chance(50) ? "copyctor" : "movector", s, {}); break;
                default: d.op(r.chance(50) ? "copyassign" : "moveassign", s, {}); break;
            }
        }
    });
}
