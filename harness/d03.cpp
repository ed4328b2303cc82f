// D03: operation sequences with fault injection on the small vector.
#include "trace.hpp"
#include "tracked.hpp"
#include "utility/small_vector.hpp"
#include <sstream>
#include <memory>
using namespace gapp;

template<typename T> struct InIt {      // single pass input iterator
    using iterator_category = std::input_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t; using pointer = const T*; using reference = const T&;
    const T* p = nullptr;
    const T& operator*() const { return *p; }
    InIt& operator++() { ++p; return *this; }
    InIt operator++(int) { auto c = *this; ++p; return c; }
    bool operator==(const InIt& o) const { return p == o.p; }
};
static_assert(std::input_iterator<InIt<int>> && !std::forward_iterator<InIt<int>>);

template<typename T, size_t N, typename A = trk::Alloc<T>> struct Driver {
    using C = small_vector<T, N, A>;
    std::unique_ptr<C> c[2];
    Driver() { c[0] = std::make_unique<C>(); c[1] = std::make_unique<C>(); }
    long nlive() { return std::is_same_v<T, int> ? long(c[0] ? c[0]->size() : 0) + long(c[1] ? c[1]->size() : 0) : long(trk::live().size()); }
    void finish() { c[0].reset(); c[1].reset(); tr::ev("fresh", "bad", trk::bad, "live", nlive(), "blocks", trk::blocks().size()); }
    tr::Raw obs(int s)
    {
        const C& x = *c[s]; C& y = *c[s];
        std::vector<int> idx, it, rit;
        for (size_t i = 0; i < x.size(); i++) idx.push_back(&x[i] == &y[i] && &x.at(i) == &y[i] && x.data() + i == &x[i] ? trk::val(x[i]) : -55);
        for (const auto& e : x) it.push_back(trk::val(e));
        for (auto i = y.rbegin(); i != y.rend(); ++i) rit.push_back(trk::val(*i));
        if (!x.empty() && (&x.front() != &x[0] || &x.back() != &x[x.size() - 1] || x.ssize() != long(x.size()))) idx.push_back(-44);
        return tr::obj("size", x.size(), "empty", x.empty(), "idx", idx, "it", it, "rit", rit, "cap", x.capacity());
    }
    void op(const std::string& name, int s, std::vector<int> a, int fault = -1)
    {
        C& x = *c[s]; C& y = *c[1 - s];
        bool threw = false; long ret = 0; std::vector<int> left;
        try {
            trk::arm(-1);
            size_t skip = name == "insr" || name == "insil" || name == "insinput" ? 1 : 0;
            std::vector<T> src; src.reserve(a.size()); for (size_t i = skip; i < a.size(); i++) src.emplace_back(a[i]);
            const T* sb = src.data(); const T* se = src.data() + src.size();
            T v(a.empty() ? 0 : a.back());
            std::unique_ptr<C> n;
            auto P = [&](size_t i) { return x.cbegin() + a[i]; };
            auto off = [&](auto it) { ret = it - x.begin(); };
            auto il = [&](auto f) {
                switch (src.size()) {
                    case 0: f(std::initializer_list<T>{}); break; case 1: f({ src[0] }); break; case 2: f({ src[0], src[1] }); break;
                    case 3: f({ src[0], src[1], src[2] }); break; case 4: f({ src[0], src[1], src[2], src[3] }); break;
                    default: f({ src[0], src[1], src[2], src[3], src[4] }); }
            };
            if (name == "ilist" || name == "insil") { if (src.size() > 5) { src.erase(src.begin() + 5, src.end()); a.resize(5 + skip); } if (fault >= 0) fault = -1; }
            trk::arm(fault);
            if constexpr (std::is_same_v<T, int>)          // sources of another element type: the elements are converted
            {
                const std::vector<long long> wide(src.begin(), src.end()); const std::vector<signed char> narrow(wide.begin(), wide.end());
                const bool fits = std::all_of(wide.begin(), wide.end(), [](long long w) { return w >= -128 && w < 128; });
                auto with = [&](auto f) { if (fits && a.size() % 4 == 3) f(narrow.data(), narrow.data() + narrow.size()); else f(wide.data(), wide.data() + wide.size()); };
                if (a.size() % 2 == 1)
                {
                    if (name == "list") { with([&](auto b, auto e) { n = std::make_unique<C>(b, e); }); goto done; }
                    if (name == "assign") { with([&](auto b, auto e) { x.assign(b, e); }); goto done; }
                    if (name == "insr") { with([&](auto b, auto e) { off(x.insert(P(0), b, e)); }); goto done; }
                }
            }
            if (name == "new") n = std::make_unique<C>();
            else if (name == "newn") n = std::make_unique<C>(size_t(a[0]));
            else if (name == "newv") n = std::make_unique<C>(size_t(a[0]), v);
            else if (name == "list") n = std::make_unique<C>(sb, se);
            else if (name == "input") n = std::make_unique<C>(InIt<T>{ sb }, InIt<T>{ se });
            else if (name == "ilist") il([&](std::initializer_list<T> l) { x = l; });
            else if (name == "assign") x.assign(sb, se);
            else if (name == "assigninput") x.assign(InIt<T>{ sb }, InIt<T>{ se });
            else if (name == "assignn") x.assign(size_t(a[0]), v);
            else if (name == "pb") x.push_back(v);
            else if (name == "pbm") x.push_back(std::move(v));
            else if (name == "eb") ret = trk::val(x.emplace_back(a[0]));
            else if (name == "pbself") x.push_back(x[size_t(a[0])]);
            else if (name == "popb") x.pop_back();
            else if (name == "resize") x.resize(size_t(a[0]));
            else if (name == "resizev") x.resize(size_t(a[0]), v);
            else if (name == "resizeself") x.resize(size_t(a[0]), x[size_t(a[1])]);
            else if (name == "ins") off(x.insert(P(0), v));
            else if (name == "insm") off(x.insert(P(0), std::move(v)));
            else if (name == "emplace") off(x.emplace(P(0), a[1]));
            else if (name == "insself") off(x.insert(P(0), x[size_t(a[1])]));
            else if (name == "insn") off(x.insert(P(0), size_t(a[1]), v));
            else if (name == "insnself") off(x.insert(P(0), size_t(a[1]), x[size_t(a[2])]));
            else if (name == "insr") off(x.insert(P(0), sb, se));
            else if (name == "insil") il([&](std::initializer_list<T> l) { off(x.insert(P(0), l)); });
            else if (name == "insinput") off(x.insert(P(0), InIt<T>{ sb }, InIt<T>{ se }));
            else if (name == "erase1") off(x.erase(P(0)));
            else if (name == "erase") off(x.erase(P(0), P(1)));
            else if (name == "clear") x.clear();
            else if (name == "reset") x.reset();
            else if (name == "setat") x[size_t(a[0])] = v;
            else if (name == "reserve") x.reserve(size_t(a[0]));
            else if (name == "shrink") x.shrink_to_fit();
            else if (name == "copyctor") n = std::make_unique<C>(x);
            else if (name == "movector") { n = std::make_unique<C>(std::move(x)); }
            else if (name == "selfassign") { C& r = x; x = r; x = std::move(r); }
            else if (name == "swap") { if constexpr (!std::allocator_traits<A>::is_always_equal::value && !std::allocator_traits<A>::propagate_on_container_swap::value) if (x.get_allocator() != y.get_allocator()) { trk::arm(-1); return; } using std::swap; swap(x, y); }
            else if (name == "copyassign") x = y;
            else if (name == "moveassign") { x = std::move(y); trk::arm(-1); for (auto& e : y) left.push_back(trk::val(e)); }
            else if (name == "at") { try { ret = trk::val(x.at(size_t(a[0]))); } catch (const std::out_of_range&) { ret = -2; } }
            done:
            trk::arm(-1);
            if (n) c[s] = std::move(n);
        }
        catch (const trk::Boom&) { threw = true; }
        catch (const std::exception& e) { tr::ev("exception", "what", e.what()); return; }
        trk::arm(-1);
        std::string st = "[" + obs(0).s + "," + obs(1).s + "]";
        const bool eq = *c[0] == *c[1]; const auto cm = *c[0] <=> *c[1]; const auto lv = nlive();
        tr::ev(name.c_str(), "s", s, "a", a, "f", fault, "threw", threw, "ret", ret, "left", left, "bad", trk::bad, "live", lv, "st", tr::Raw{ st }, "eq", eq, "cmp", cm < 0 ? -1 : cm > 0 ? 1 : 0);
    }
};
template<typename T, size_t N> void play(const std::string& line, int fault_last)
{
    trk::reset();
    Driver<T, N> d;
    std::vector<std::pair<std::string, std::vector<int>>> ops;
    std::istringstream is(line); std::string one;
    while (std::getline(is, one, ';')) { std::istringstream os(one); std::string n; os >> n; std::vector<int> a; int v; while (os >> v) a.push_back(v); ops.push_back({ n, a }); }
    for (size_t i = 0; i < ops.size(); i++) d.op(ops[i].first, 0, ops[i].second, i + 1 == ops.size() ? fault_last : -1);
    d.op("pb", 0, { 500 });
    d.finish();
}
template<typename T, size_t N, typename A = trk::Alloc<T>> void random_scenario(tr::Rnd& r, int mx, int len, int faultpct)
{
    trk::reset();
    Driver<T, N, A> d; int next = 1;
    for (int i = 0; i < len; i++)
    {
        int s = r.chance(65) ? 0 : 1; auto& x = *d.c[s];
        int f = r.chance(5) ? 100 + r.in(0, 1) : r.chance(faultpct) ? r.in(0, 7) : -1, sz = int(x.size());
        auto vals = [&](std::vector<int> a, int n) { for (int j = 0; j < n; j++) a.push_back(next++); return a; };
        if (sz > 3 * mx) { d.op("clear", s, {}); continue; }
        switch (r.chance(10) ? 19 : r.in(0, 33))
        {
            case 0: d.op("newn", s, { r.in(0, mx) }, f); break;
            case 1: d.op("newv", s, { r.in(0, mx), next++ }, f); break;
            case 2: d.op("list", s, vals({}, r.in(0, mx)), f); break;
            case 3: d.op("input", s, vals({}, r.in(0, mx)), f); break;
            case 4: d.op("ilist", s, vals({}, r.in(0, 5))); break;
            case 5: d.op("assign", s, vals({}, r.in(0, mx)), f); break;
            case 6: d.op("assigninput", s, vals({}, r.in(0, mx)), f); break;
            case 7: d.op("assignn", s, { r.in(0, mx), next++ }, f); break;
            case 8: case 9: case 10: d.op("pb", s, { next++ }, f); break;
            case 11: d.op("pbm", s, { next++ }, f); break;
            case 12: d.op("eb", s, { next++ }, f); break;
            case 13: if (sz) d.op("popb", s, {}); break;
            case 14: d.op("resize", s, { r.in(0, mx) }, f); break;
            case 15: d.op("resizev", s, { r.in(0, mx), next++ }, f); break;
            case 16: d.op("ins", s, { r.in(0, sz), next++ }, f); break;
            case 17: d.op("insm", s, { r.in(0, sz), next++ }, f); break;
            case 18: d.op("emplace", s, { r.in(0, sz), next++ }, f); break;
            case 19: if (sz) switch (r.in(0, 4))                        // the value is an element of the vector itself
                {
                    case 0: d.op("pbself", s, { r.in(0, sz - 1) }, f); break;
                    case 1: d.op("resizeself", s, { r.in(0, mx), r.in(0, sz - 1) }, f); break;
                    case 2: d.op("insself", s, { r.in(0, sz), r.in(0, sz - 1) }, f); break;
                    default: d.op("insnself", s, { r.chance(30) ? 0 : r.in(0, sz), r.in(0, 4), r.in(0, sz - 1) }, f); break;
                } break;
            case 20: d.op("insn", s, { r.in(0, sz), r.in(0, 5), next++ }, f); break;
            case 21: d.op("insr", s, vals({ r.in(0, sz) }, r.in(0, 5)), f); break;
            case 22: d.op("insinput", s, vals({ r.in(0, sz) }, r.in(0, 5)), f); break;
            case 23: if (sz) d.op("erase1", s, { r.in(0, sz - 1) }); break;
            case 24: { int p = r.in(0, sz); d.op("erase", s, { p, r.in(p, sz) }); break; }
            case 25: d.op(r.chance(50) ? "clear" : "reset", s, {}); break;
            case 26: d.op("reserve", s, { r.in(0, 2 * mx) }, f); break;
            case 27: d.op("shrink", s, {}, f); break;
            case 28: d.op(r.chance(50) ? "copyctor" : "selfassign", s, {}, -1); break;
            case 29: d.op("movector", s, {}); break;
            case 30: d.op("swap", s, {}); break;
            case 31: d.op("copyassign", s, {}, f); break;
            case 32: d.op("moveassign", s, {}, f >= 100 ? f : -1); break;
            case 33: if (sz && r.chance(50)) d.op("setat", s, { r.in(0, sz - 1), next++ }); else d.op("at", s, { r.in(0, mx) }); break;
        }
    }
    d.finish();
}
int main(int argc, char** argv)
{
    auto args = tr::parse(argc, argv);
    auto gen = tr::lines(args.ops);
    const long per = 10, ng = (long(gen.size()) + per - 1) / per, nr = args.thorough ? 12000 : 2400;
    return tr::run(args, ng + nr, [&](long id) {
        tr::Rnd r(args.seed * 104729 + uint64_t(id));
        if (id < ng)
        {
            tr::begin(id, tr::obj("kind", "gen"));
            for (long g = id * per; g < std::min<long>((id + 1) * per, long(gen.size())); g++)
            {
                switch (g % 4) { case 0: play<trk::Elem<true>, 3>(gen[size_t(g)], -1); break; case 1: play<trk::Elem<false>, 3>(gen[size_t(g)], int(g / 4 % 6) - 1); break;
                                 case 2: play<trk::Elem<true>, 3>(gen[size_t(g)], int(g / 4 % 6)); break; default: play<int, 3>(gen[size_t(g)], -1); }
            }
            return;
        }
        int mx = r.in(1, 9), len = r.in(5, 40);
        tr::begin(id, tr::obj("kind", "random", "max", mx));
        using E = trk::Elem<true>; using G = trk::Elem<false>;
        if (id % 4 == 3) switch (id / 4 % 4) { case 0: random_scenario<E, 3, trk::IdAlloc<E, true>>(r, mx, len, 10); return; case 1: random_scenario<E, 2, trk::IdAlloc<E, false>>(r, mx, len, 10); return;
                                               case 2: random_scenario<int, 3, trk::IdAlloc<int, false>>(r, mx, len, 0); return; default: random_scenario<G, 1, trk::IdAlloc<G, true>>(r, mx, len, 0); return; }
        switch (id % 6) { case 0: random_scenario<trk::Elem<true>, 3>(r, mx, len, 25); break; case 1: random_scenario<trk::Elem<false>, 3>(r, mx, len, 25); break; case 2: random_scenario<int, 3>(r, mx, len, 0); break;
                          case 3: random_scenario<trk::Elem<true>, 1>(r, mx, len, 10); break; case 4: random_scenario<int, 5>(r, mx, len, 0); break; default: random_scenario<trk::Elem<false>, 5>(r, mx, len, 0); }
    });
}
