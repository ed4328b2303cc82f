// D02: operation sequences with fault injection on the circular buffer.
#include "trace.hpp"
#include "tracked.hpp"
#include "utility/circular_buffer.hpp"
#include <sstream>
#include <memory>
using namespace gapp::detail;

template<typename T> struct Driver {
    using C = circular_buffer<T, trk::Alloc<T>>;
    std::unique_ptr<C> c[2];
    long nlive() { return std::is_same_v<T, int> ? long(c[0] ? c[0]->size() : 0) + long(c[1] ? c[1]->size() : 0) : long(trk::live().size()); }
    Driver() { c[0] = std::make_unique<C>(); c[1] = std::make_unique<C>(); }
    void finish() { c[0].reset(); c[1].reset(); tr::ev("fresh", "threw", false, "bad", trk::bad, "live", nlive(), "blocks", trk::blocks().size()); }
    std::string obs(int s)
    {
        const C& x = *c[s]; C& y = *c[s];
        std::vector<int> idx, it, rit;
        for (size_t i = 0; i < x.size(); i++) idx.push_back(&x[i] == &y[i] && &x.at(i) == &y[i] ? trk::val(x[i]) : -55);
        for (const auto& e : x) it.push_back(trk::val(e));
        for (auto i = y.rbegin(); i != y.rend(); ++i) rit.push_back(trk::val(*i));
        for (size_t i = 0; i < x.size(); i++) if (&*(x.begin() + long(i)) != &x[i] || (x.begin() + long(i)) - x.begin() != long(i)) it.push_back(-66);
        if (!x.empty() && (&x.front() != &x[0] || &x.back() != &x[x.size() - 1] || &y.front() != &x[0] || &y.back() != &x[x.size() - 1])) idx.push_back(-44);
        std::string o = "["; tr::put(o, x.capacity()); o += ','; tr::put(o, x.size()); o += ','; tr::put(o, x.empty()); o += ','; tr::put(o, x.full());
        o += ','; tr::put(o, idx); o += ','; tr::put(o, it); o += ','; tr::put(o, rit); o += ']';
        return o;
    }
    // fault: the operation's n-th element copy throws (-1: none)
    void op(const std::string& name, int s, std::vector<int> a, int fault = -1)
    {
        C& x = *c[s]; C& y = *c[1 - s];
        bool threw = false; int ret = 0; std::vector<int> left;
        try {
            trk::arm(-1);
            std::vector<T> src; if (name == "list") { src.reserve(a.size()); for (size_t i = 1; i < a.size(); i++) src.emplace_back(a[i]); }
            std::unique_ptr<C> n; 
            if (name == "pb" || name == "pbm" || name == "eb" || name == "pf" || name == "pfm" || name == "ef" || name == "setat")
            {
                T v(a.back());
                trk::arm(fault);
                try {
                    if (name == "pb") x.push_back(v); else if (name == "pbm") x.push_back(std::move(v));
                    else if (name == "pf") x.push_front(v); else if (name == "pfm") x.push_front(std::move(v));
                    else if (name == "eb") ret = trk::val(x.emplace_back(a[0])); else if (name == "ef") ret = trk::val(x.emplace_front(a[0]));
                    else x[size_t(a[0])] = v;
                } catch (...) { trk::arm(-1); throw; }
            }
            else {
                trk::arm(fault);
                if (name == "new") n = std::make_unique<C>(size_t(a[0]));
                else if (name == "list") n = std::make_unique<C>(size_t(a[0]), src.begin(), src.end());
                else if (name == "popf") x.pop_front();
                else if (name == "popb") x.pop_back();
                else if (name == "setcap") x.set_capacity(size_t(a[0]));
                else if (name == "reset") x.reset(size_t(a[0]));
                else if (name == "clear") x.clear();
                else if (name == "swap") { using std::swap; swap(x, y); }
                else if (name == "copyctor") n = std::make_unique<C>(x);
                else if (name == "movector") n = std::make_unique<C>(std::move(x));
                else if (name == "copyassign") x = y;
                else if (name == "moveassign") { x = std::move(y); trk::arm(-1); left.push_back(int(y.capacity())); for (auto& e : y) left.push_back(trk::val(e)); }
                else if (name == "at") { try { ret = trk::val(x.at(size_t(a[0]))); } catch (const std::out_of_range&) { ret = -2; } }
            }
            trk::arm(-1);
            if (n) c[s] = std::move(n);
        }
        catch (const trk::Boom&) { threw = true; }
        catch (const std::exception& e) { tr::ev("exception", "what", e.what()); return; }
        trk::arm(-1);
        std::string st = "[" + obs(0) + "," + obs(1) + "]";
        const bool eq = *c[0] == *c[1];
        const auto cm = *c[0] <=> *c[1];
        const auto lv = nlive();
        tr::ev(name.c_str(), "s", s, "a", a, "f", fault, "threw", threw, "ret", ret, "left", left, "bad", trk::bad, "live", lv, "st", tr::Raw{ st }, "eq", eq, "cmp", cm < 0 ? -1 : cm > 0 ? 1 : 0);
    }
};

template<typename T> void play(const std::string& line, int fault_last)
{
    trk::reset();
    Driver<T> d;
    d.op("list", 1, { 2, 901, 902 });
    std::vector<std::pair<std::string, std::vector<int>>> ops;
    std::istringstream is(line); std::string one;
    while (std::getline(is, one, ';')) { std::istringstream os(one); std::string n; os >> n; std::vector<int> a; int v; while (os >> v) a.push_back(v); ops.push_back({ n, a }); }
    for (size_t i = 0; i < ops.size(); i++) d.op(ops[i].first, 0, ops[i].second, i + 1 == ops.size() ? fault_last : -1);
    if (d.c[0]->capacity() > 0) { d.op("pb", 0, { 500 }); d.op("pf", 0, { 501 }); }
    d.finish();
}
template<typename T> void random_scenario(tr::Rnd& r, int maxcap, int len, int faultpct)
{
    trk::reset();
    Driver<T> d; int next = 1;
    d.op("new", 0, { r.in(0, maxcap) });
    { std::vector<int> a{ r.in(0, maxcap) }; int n = r.in(0, maxcap + 2); for (int i = 0; i < n; i++) a.push_back(next++); d.op("list", 1, a); }
    static const char* push[] = { "pb", "pbm", "eb", "pf", "pfm", "ef" };
    for (int i = 0; i < len; i++)
    {
        int s = r.chance(70) ? 0 : 1, w = r.in(0, 99); auto& x = *d.c[s];
        int f = r.chance(5) ? 100 + r.in(0, 1) : r.chance(faultpct) ? r.in(0, 4) : -1;
        if (w < 45) { if (x.capacity()) d.op(push[r.in(0, 5)], s, { next++ }, f); }
        else if (w < 53) { if (!x.empty()) d.op("popf", s, {}); }
        else if (w < 61) { if (!x.empty()) d.op("popb", s, {}); }
        else if (w < 65) { if (!x.empty()) d.op("setat", s, { r.in(0, int(x.size()) - 1), next++ }); }
        else if (w < 73) d.op("setcap", s, { r.in(0, maxcap + 2) }, f);
        else if (w < 75) d.op("clear", s, {});
        else if (w < 77) d.op("reset", s, { r.in(0, maxcap) }, r.chance(30) ? 100 : f);
        else if (w < 81) d.op("copyctor", s, {}, f);
        else if (w < 84) d.op("movector", s, {});
        else if (w < 87) d.op("swap", s, {});
        else if (w < 90) d.op("copyassign", s, {}, f);
        else if (w < 93) d.op("moveassign", s, {});
        else if (w < 96) d.op("at", s, { r.in(0, maxcap + 1) });
        else { std::vector<int> a{ r.in(0, maxcap) }; int n = r.in(0, maxcap + 2); for (int j = 0; j < n; j++) a.push_back(next++); d.op("list", s, a, f); }
    }
    d.finish();
}
int main(int argc, char** argv)
{
    auto args = tr::parse(argc, argv);
    auto gen = tr::lines(args.ops);
    const long per = 10, ng = (long(gen.size()) + per - 1) / per, nr = args.thorough ? 10000 : 1600;
    return tr::run(args, ng + nr, [&](long id) {
        tr::Rnd r(args.seed * 7919 + uint64_t(id));
        if (id < ng)
        {
            tr::begin(id, tr::obj("kind", "gen"));
            for (long g = id * per; g < std::min<long>((id + 1) * per, long(gen.size())); g++)
            {
                switch (g % 3) { case 0: play<trk::Elem<true>>(gen[size_t(g)], int(g / 3 % 4) - 1); break; case 1: play<trk::Elem<false>>(gen[size_t(g)], int(g / 3 % 4) - 1); break; default: play<int>(gen[size_t(g)], -1); }
            }
            return;
        }
        int mc = r.in(0, 7), len = r.in(5, 40);
        tr::begin(id, tr::obj("kind", "random", "maxcap", mc));
        switch (id % 3) { case 0: random_scenario<trk::Elem<true>>(r, mc, len, 30); break; case 1: random_scenario<trk::Elem<false>>(r, mc, len, 30); break; default: random_scenario<int>(r, mc, len, 0); }
    });
}
