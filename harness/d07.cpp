// The range algorithms, small helpers, callable wrappers, scope guards and vector functions of the library.
#include "trace.hpp"
#include <algorithm>
#include <array>
#include <cmath>
#include <deque>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <span>
#include <sstream>
#include <functional>
#include "utility/algorithm.hpp"
#include "utility/functional.hpp"
#include "utility/iterators.hpp"
#include "utility/circular_buffer.hpp"
#include "utility/scope_exit.hpp"
#include "utility/indestructible.hpp"
#include "utility/bit.hpp"
#include "utility/math.hpp"
#include "utility/rng.hpp"
#include "core/candidate.hpp"
#include "encoding/gene_types.hpp"
#include <set>
#include <unordered_set>
#include <variant>
using namespace gapp; using namespace gapp::detail;
using V = std::vector<int>;
template<typename R> V ints(const R& r) { V o; for (auto x : r) o.push_back(int(x)); return o; }
static int opt(const std::optional<size_t>& o) { return o ? int(*o) : -1; }
static V rv(tr::Rnd& r, int n, int hi) { V v; while (n--) v.push_back(r.in(0, hi)); return v; }

static const V* given = nullptr; static int givenm = 0;
static void sorts(tr::Rnd& r)
{
    const int n = given ? int(given->size()) : r.chance(60) ? r.in(0, 8) : r.chance(90) ? r.in(9, 40) : r.in(41, 120), hi = r.chance(50) ? 4 : 200; const V v = given ? *given : rv(r, n, hi); const int m = given ? givenm : r.chance(60) ? r.in(0, n / 4) : r.in(0, n), g = r.in(1, 3);
    auto coarse = [g](int a, int b) { return a / g > b / g; };
    tr::ev("argsort", "v", v, "g", 1, "desc", false, "m", n, "out", ints(argsort(v.begin(), v.end())));
    tr::ev("argsort", "v", v, "g", 1, "desc", true, "m", n, "out", ints(argsort(v.rbegin(), v.rend())));
    tr::ev("argsort", "v", v, "g", g, "desc", true, "m", n, "out", ints(argsort(v.begin(), v.end(), coarse)));
    tr::ev("argsort", "v", v, "g", g, "desc", false, "m", n, "out", ints(argsort(v.crbegin(), v.crend(), coarse)));
    tr::ev("argsort", "v", v, "g", 1, "desc", false, "m", m, "out", ints(partial_argsort(v.begin(), v.begin() + m, v.end())));
    tr::ev("argsort", "v", v, "g", 1, "desc", true, "m", m, "out", ints(partial_argsort(v.rbegin(), v.rbegin() + m, v.rend())));
    tr::ev("argsort", "v", v, "g", g, "desc", true, "m", m, "out", ints(partial_argsort(v.begin(), v.begin() + m, v.end(), coarse)));
    std::deque<int> dq(v.begin(), v.end()); tr::ev("argsort", "v", v, "g", 1, "desc", false, "m", n, "out", ints(argsort(dq.begin(), dq.end())));
    circular_buffer<int> cb(size_t(n + 1)); for (int i = 0; i < n / 2; i++) { cb.push_back(0); cb.pop_front(); } for (int x : v) cb.push_back(x);
    tr::ev("argsort", "v", v, "g", 1, "desc", true, "m", n, "out", ints(argsort(cb.rbegin(), cb.rend())));
    V s = v; std::sort(s.begin(), s.end()); V d(s.rbegin(), s.rend());
    for (int q = 0; q < 3; q++)
    {
        const int x = r.in(-1, hi + 1); const auto p = detail::lower_bound(s.begin(), s.end(), x), p2 = detail::lower_bound(d.begin(), d.end(), x, std::greater<int>{});
        tr::ev("lower", "v", s, "x", x, "pos", int(p - s.begin()), "d", d, "dpos", int(p2 - d.begin()));
    }
    V u = v; erase_duplicates(u); tr::ev("dedup", "v", v, "out", u);
    small_vector<int> u2(v.begin(), v.end()); erase_duplicates(u2); tr::ev("dedup", "v", v, "out", ints(u2));
    if (n)
    {
        auto neg = [](int x) { return -x; };
        auto e = [&](const V& w, int tr_, size_t mx, size_t mn, size_t am, size_t an, size_t ram, size_t ran) { tr::ev("ext", "v", w, "neg", tr_ == 1, "max", int(mx), "min", int(mn), "amax", int(am), "amin", int(an), "ramax", int(ram), "ramin", int(ran)); };
        e(v, 0, size_t(detail::max_element(v.begin(), v.end()) - v.begin()), size_t(detail::min_element(v.begin(), v.end()) - v.begin()), argmax(v.begin(), v.end()), argmin(v.begin(), v.end()), argmax(v.rbegin(), v.rend()), argmin(v.rbegin(), v.rend()));
        e(v, 1, size_t(detail::max_element(v.begin(), v.end(), neg) - v.begin()), size_t(detail::min_element(v.begin(), v.end(), neg) - v.begin()), argmax(v.begin(), v.end(), neg), argmin(v.begin(), v.end(), neg), argmax(v.rbegin(), v.rend(), neg), argmin(v.rbegin(), v.rend(), neg));
    }
    const int a = r.in(-5, 5), b = r.in(-5, 5), c = r.in(-5, 5), f = r.in(-5, 5);
    tr::ev("mm", "v", V{ a, b, c, f }, "max", V{ detail::max(a, b), detail::max(a, b, c), detail::max(a, b, c, f) }, "min", V{ detail::min(a, b), detail::min(a, b, c), detail::min(a, b, c, f) });
}
static void shuffles(tr::Rnd& r)
{
    const int n = r.in(0, 9), m = r.in(0, n); V v = rv(r, n, 20), w = v; partial_shuffle(w.begin(), w.begin() + m, w.end(), rng::prng);
    tr::ev("pshuf", "v", v, "m", m, "out", w);
    if (r.chance(15))
    {
        const int k = r.in(2, 4), q = r.in(1, k), N = 24000; std::map<V, int> cnt; V id(static_cast<size_t>(k)); std::iota(id.begin(), id.end(), 0);
        for (int i = 0; i < N; i++) { V z = id; partial_shuffle(z.begin(), z.begin() + q, z.end(), rng::prng); cnt[V(z.begin(), z.begin() + q)]++; }
        V counts; for (auto& [z, c] : cnt) counts.push_back(c); tr::ev("pfreq", "k", k, "m", q, "n", N, "counts", counts);
    }
    if (r.chance(15))
    {
        // how often each element lands in each of the shuffled positions, for the longer ranges
        const int k = r.in(5, 24), q = r.in(1, k), N = 400 * k; std::vector<V> at(static_cast<size_t>(q), V(static_cast<size_t>(k))); V id(static_cast<size_t>(k)); std::iota(id.begin(), id.end(), 0);
        for (int i = 0; i < N; i++) { V z = id; partial_shuffle(z.begin(), z.begin() + q, z.end(), rng::prng); for (int j = 0; j < q; j++) at[size_t(j)][size_t(z[size_t(j)])]++; }
        tr::ev("pplace", "k", k, "m", q, "n", N, "at", at);
    }
}
struct Box { int x; int operator*(int m) const { return x * m; } int operator/(int m) const { return x / m; } int operator+(int m) const { return x + m; } int operator-(int m) const { return x - m; } friend int operator*(int m, const Box& b) { return m * b.x; } };
static void searches(tr::Rnd& r)
{
    const int n = r.chance(12) ? r.in(10, 40) : r.in(0, 9); const V v = rv(r, n, n < 10 ? 5 : r.in(4, 9)); const int a = r.in(-1, 6), b = a + r.in(0, 3);
    auto one = [&](const char* k, auto pred) { V all = ints(find_all(v.begin(), v.end(), pred)); tr::ev("pred", "v", v, "k", k, "a", a, "b", b, "all", all, "idx", opt(find_index(v, pred)), "idxs", ints(find_indices(v, pred))); };
    switch (r.in(0, 6))
    {
        case 0: one("eq", equal_to(a)); break; case 1: one("ne", not_equal_to(a)); break; case 2: one("gt", greater_than(a)); break; case 3: one("ge", greater_eq_than(a)); break;
        case 4: one("lt", less_than(a)); break; case 5: one("le", less_eq_than(a)); break; default: one("bt", between(a, b)); break;
    }
    tr::ev("find", "v", v, "a", a, "in", detail::contains(v.begin(), v.end(), a), "idx", opt(index_of(v, a)));
    V w = v; const bool er = erase_first_stable(w, a); small_vector<int> w2(v.begin(), v.end()); const bool er2 = erase_first_stable(w2, a); tr::ev("erase1", "v", v, "a", a, "ret", er, "out", w, "same", er == er2 && ints(w2) == w);
    const V x = rv(r, n, 9); V lo = v, hi = v; elementwise_min(lo, x, detail::inplace_t{}); elementwise_max(hi, x, detail::inplace_t{}); tr::ev("elem", "v", v, "x", x, "min", lo, "max", hi);
    if (n)
    {
        std::vector<size_t> I; for (int q = r.in(0, 6); q--;) I.push_back(size_t(r.in(0, n - 1)));
        const auto s1 = detail::select(v, I); std::vector<std::unique_ptr<int>> mv; for (int y : v) mv.push_back(std::make_unique<int>(y));
        std::vector<V> boxed; for (int y : v) boxed.push_back({ y, y }); V left, cp; for (auto& y : detail::select(boxed, I)) cp.push_back(y.size() == 2 ? y[1] : -1); for (auto& y : boxed) left.push_back(y.size() == 2 ? y[0] : -1);     // copying leaves the source as it is
        std::vector<size_t> J; for (size_t i : I) if (std::find(J.begin(), J.end(), i) == J.end()) J.push_back(i);
        auto s2 = detail::select(std::move(mv), J); V o2; for (auto& y : s2) o2.push_back(y ? *y : -1);
        tr::ev("select", "v", v, "i", ints(I), "out", s1, "j", ints(J), "moved", o2, "left", left, "copied", cp);
    }
    const int k = r.in(1, 3);
std::vector<Box> bx; for (int y : v) bx.push_back({ y }); std::array<int, 3> ar{ r.in(0, 9), r.in(0, 9), r.in(0, 9) };
    auto mp = [&](const char* f, auto fn) { tr::ev("map", "f", f, "a", k, "b", b, "v", v, "out", ints(detail::map(v, fn)), "boxed", ints(detail::map(bx, fn)), "ar", ints(ar), "arout", ints(detail::map(ar, fn))); };
    mp("mul", multiply_by(k)); mp("div", divide_by(k)); mp("add", add(k)); mp("sub", subtract(k)); mp("mad", multiply_add(k, b));
    const int m = r.in(1, 9), z = r.in(0, m - 1); int i1 = z, d1 = z; increment_mod(i1, m); decrement_mod(d1, m);
    tr::ev("mod", "x", z, "m", m, "next", next_mod(z, m), "prev", prev_mod(z, m), "inc", i1, "dec", d1);
    const int cnt = r.in(0, 9), first = r.in(0, 9); tr::ev("iota", "n", cnt, "first", first, "out", ints(index_vector(size_t(cnt), size_t(first))));
    const int L = r.in(-9, 9), H = L + r.in(0, 20); tr::ev("range", "lo", L, "hi", H, "len", int(range_length(L, H)), "wide", range_length(std::int64_t(INT64_MIN), std::int64_t(INT64_MAX)) == UINT64_MAX);
    const uint8_t by = uint8_t(r.in(0, 255)); V bits; for (size_t q = 0; q < 8; q++) bits.push_back(is_nth_bit_set(by, q)); const size_t sh = size_t(r.in(0, 32)); const uint32_t wr = mask_right_n<uint32_t>(sh), wl = mask_left_n<uint32_t>(sh);
    auto hv = [](uint32_t x) { return V{ int(x >> 16), int(x & 65535) }; };
    tr::ev("bits", "x", int(by), "bits", bits, "msb", msb(by), "lsb", lsb(by), "n", int(sh), "right", hv(wr), "left", hv(wl), "block", V{ int(block_of<uint8_t>(true)), int(block_of<uint8_t>(false)) });
}
// ---- callables
struct Counting { static inline int live = 0; int id; int calls = 0; Counting(int i) : id(i) { live++; } Counting(const Counting& o) : id(o.id), calls(o.calls) { live++; } Counting(Counting&& o) noexcept : id(o.id), calls(o.calls) { live++; o.id = -1; } ~Counting() { live--; }
    int operator()(int a) { if (a == 13) throw std::runtime_error("x"); return 1000 * id + 10 * ++calls + a; } };
struct MoveOnly : Counting { using Counting::Counting; MoveOnly(MoveOnly&&) = default; MoveOnly(const MoveOnly&) = delete; };
struct Alt { long pad[3] = { -5, -6, -7 }; Counting c{ 8 }; int operator()(int a) { return c(a); } };      // another type to refer to
struct Stubborn : Counting { using Counting::Counting; Stubborn(const Stubborn&) = delete; Stubborn(Stubborn&& o) : Counting(o) { throw std::runtime_error("m"); } };   // cannot be moved into a wrapper
static void callables(tr::Rnd& r)
{
    using F = move_only_function<int(int)>; using R = function_ref<int(int)>;
    Counting::live = 0; { std::array<F, 3> f; std::array<R, 2> ref; Counting own{ 7 }; Alt alt; auto bind = [&](R& x, int w, bool as) { if (w) { if (as) x = alt; else x = R(alt); } else { if (as) x = own; else x = R(own); } }; int id = 1;
    auto st = [&] { V e; for (auto& x : f) e.push_back(bool(x)); for (auto& x : ref) e.push_back(bool(x)); return e; };
    tr::ev("cstart", "st", st(), "live", Counting::live);
    for (int n = r.in(4, 20); n--;)
    {
        const int i = r.in(0, 2), j = r.in(0, 2), k = r.in(0, 1), w = r.in(0, 1), a = r.chance(10) ? 13 : r.in(0, 9); int ret = -1;
        auto call = [&](auto& x) { try { return x(a); } catch (const std::runtime_error&) { return -13; } };
        const char* op = ""; 
        switch (r.in(0, 10))
        {
            case 10: op = "fbad"; try { if (r.chance(50)) f[size_t(i)] = Stubborn(id); else f[size_t(i)] = F(Stubborn(id)); } catch (const std::runtime_error&) { ret = -14; } break;
            case 0: op = "fset"; if (r.chance(50)) f[size_t(i)] = Counting(id); else f[size_t(i)] = F(MoveOnly(id)); ret = id++; break;
            case 1: op = "fset"; { F t(Counting{ id }); if (r.chance(50)) f[size_t(i)] = std::move(t); else f[size_t(i)].swap(t); ret = id++; break; }
            case 2: if (i == j) continue; op = "fmove"; f[size_t(i)] = std::move(f[size_t(j)]); break;
            case 3: op = "fswap"; if (r.chance(50)) f[size_t(i)].swap(f[size_t(j)]); else std::swap(f[size_t(i)], f[size_t(j)]); break;
            case 4: case 5: if (!f[size_t(i)]) continue; op = "fcall"; ret = call(f[size_t(i)]); break;
            case 6: op = "fnull"; f[size_t(i)] = F(nullptr); break;
            case 7: op = "rset"; bind(ref[size_t(k)], w, r.chance(50)); break;
            case 8: if (!ref[size_t(k)]) continue; op = "rcall"; ret = call(ref[size_t(k)]); break;
            default: op = "rcopy"; ref[size_t(k)] = ref[size_t(w)]; break;
        }
        tr::ev(op, "i", i + 1, "j", j + 1, "k", k + 1, "w", w + 1, "a", a, "ret", ret, "st", st(), "live", Counting::live);
    } }
    tr::ev("cend", "live", Counting::live);
    // scope guards, restored variables, indestructible objects
    V log; { const int n = r.in(0, 4); std::vector<std::unique_ptr<scope_exit<std::function<void()>>>> g; V rel; for (int i = 0; i < n; i++) g.push_back(std::make_unique<scope_exit<std::function<void()>>>([&log, i] { log.push_back(i); }));
        for (int i = 0; i < n; i++) { rel.push_back(r.chance(40)); if (rel.back()) g[size_t(i)]->release(); }
        const V before = log; while (!g.empty()) g.pop_back(); int thrown = 0; try { scope_exit e([&] { thrown++; }); scope_exit q([&] { thrown += 10; }); q.release(); if (r.chance(50)) throw 1; } catch (int) {} 
        tr::ev("guards", "rel", rel, "before", before, "log", log, "thrown", thrown); }
    int x = r.in(0, 9), x0 = x; std::string s = "abc"; const int y = r.in(0, 9); { restore_on_exit _{ x, s }; x = y; s = "zz"; if (x != y) x = -1; } 
    Counting::live = 0; { Indestructible<Counting> in(5); if (in->id != 5 || (*in).id != 5 || in.get().id != 5) x = -2; } tr::ev("restore", "x0", x0, "x", x, "same", s == "abc", "kept", Counting::live);
}
// ---- vectors of numbers
static int sc(double x, double k) { x = std::round(x * k); return x != x ? -2000000000 : x > 2e9 ? 2000000000 : x < -2e9 ? -2000000000 : int(x); }
static void vectors(tr::Rnd& r)
{
    auto some = [&](int n, int lo, int hi) { std::vector<double> v; while (n--) v.push_back(r.in(lo, hi)); return v; };
    const int n = r.in(1, 5); const auto p = some(n, -9, 9), q = some(n, -9, 9); auto l = some(n, -3, 3); bool zero = true; for (double x : l) if (x != 0) zero = false; if (zero) l[0] = 1;
    auto nz = l; for (const double scale = r.chance(50) ? 1.0 : r.chance(50) ? 1.0 / 64 : 64.0; double& x : nz) x *= scale; math::normalizeVector(nz); V nzi; for (double x : nz) nzi.push_back(sc(x, 1024));
    auto small = some(n, -3, 3);
    tr::ev("vec", "p", ints(p), "q", ints(q), "norm", sc(math::euclideanNorm(p), 256), "dist", sc(math::euclideanDistanceSq(p, q), 1), "vol", sc(math::volumeBetween(p, q), 1), "l", ints(l), "unit", nzi, "perp", sc(math::perpendicularDistanceSq(l, p), 256));
    const auto s = some(r.chance(20) ? 1 : r.in(2, 12), -9, 9); const double m = math::mean(s);
    tr::ev("stat", "v", ints(s), "mean", sc(m, 1024), "sd", sc(math::stdDev(s), 256), "sdm", sc(math::stdDev(s, m), 256));
    const int e = r.in(0, 9); const double pi = 3.14159265358979323846, a = r.in(0, 15) * pi / 16, h = pi / 32, W = math::integralSinPow(size_t(e), pi / 2) - math::integralSinPow(size_t(e), 0.0);
    auto f = [&](double x) { double y = 1; for (int i = 0; i < e; i++) y *= std::sin(x); return y; };
    tr::ev("sinpow", "n", e, "half", sc(W, 16384), "two", e >= 2 ? sc(math::integralSinPow(size_t(e) - 2, pi / 2) - math::integralSinPow(size_t(e) - 2, 0.0), 16384) : 0,
           "step", sc(math::integralSinPow(size_t(e), a + h) - math::integralSinPow(size_t(e), a), 1 << 20), "f0", sc(f(a), 1 << 20), "f1", sc(f(a + h / 2), 1 << 20), "f2", sc(f(a + h), 1 << 20));
    std::vector<double> u = p; if (r.chance(60)) u[size_t(r.in(0, n - 1))] += r.chance(50) ? 1e-13 : 1e-3; if (r.chance(20)) u.push_back(1); tr::ev("veq", "p", ints(p), "lens", V{ int(p.size()), int(u.size()) }, "eq", math::floatVecIsEqual(std::span<const double>(p), std::span<const double>(u)), "rev", math::floatVecIsEqual(std::span<const double>(u), std::span<const double>(p)), "far", std::inner_product(p.begin(), p.end(), u.begin(), 0, std::plus<>{}, [](double x, double y) { return std::abs(x - y) > 1e-6; }));
}
// Candidates of every gene type: equality, hashes, copies and moves.
using Mix2 = std::variant<double, int>;
template<typename T> static T tog(int x)
{
    if constexpr (std::is_same_v<T, Mix2>) { if (x % 2) return Mix2(double(x / 2)); return Mix2(x / 2); }
    else return T(x);
}
template<typename T> static V genes(const Candidate<T>& c)
{
    V o; for (const T& g : c.chromosome) { if constexpr (std::is_same_v<T, Mix2>) o.push_back(g.index() ? 2 * std::get<1>(g) : 2 * int(std::get<0>(g)) + 1); else o.push_back(int(std::lround(double(g)))); } return o;
}
template<typename T> static void cands(tr::Rnd& r, const char* name)
{
    const int hi = std::is_same_v<T, double> ? 2 : r.in(1, 3), maxlen = r.in(0, 4);
    auto make = [&](const V& v, tr::Rnd& q)                       // the same chromosome through different constructors, with any fitness
    {
        Chromosome<T> ch; for (int x : v) ch.push_back(tog<T>(x));
        Candidate<T> c = q.chance(50) ? Candidate<T>(ch) : Candidate<T>(v.size());
        if (c.chromosome != ch) { for (size_t i = 0; i < ch.size(); i++) c.chromosome[i] = ch[i]; }
        if (q.chance(50)) c.fitness = FitnessVector(size_t(q.in(1, 3)), double(q.in(0, 3)));
        c.is_evaluated = q.chance(50);
        return c;
    };
    auto st = [](const Candidate<T>& c) { return tr::obj("g", genes(c), "f", ints(c.fitness), "ev", bool(c.is_evaluated)); };
    std::vector<Candidate<T>> cs; std::vector<V> vs;
    for (int i = r.in(2, 7); i--;) { V v = vs.empty() || r.chance(70) ? rv(r, r.in(0, maxlen), hi) : vs[size_t(r.in(0, int(vs.size()) - 1))]; if (!v.empty() && r.chance(20)) v.pop_back(); vs.push_back(v); cs.push_back(make(v, r)); }
    // values closer than the tolerance
    if constexpr (std::is_same_v<T, double>) { for (auto& c : cs) if (r.chance(30) && !c.chromosome.empty()) c.chromosome[size_t(r.in(0, int(c.chromosome.size()) - 1))] += r.chance(50) ? 1e-13 : -1e-13; }
    std::vector<V> eq, hs;
    for (auto& a : cs) { V e; for (auto& b : cs) e.push_back(int(a == b) + 2 * int(!(a != b))); eq.push_back(e); }
    if constexpr (!std::is_same_v<T, double>) for (auto& a : cs) { V h; for (auto& b : cs) h.push_back(std::hash<Candidate<T>>{}(a) == std::hash<Candidate<T>>{}(b)); hs.push_back(h); }
    V kept; { std::unordered_set<Candidate<T>> set; if constexpr (!std::is_same_v<T, double>) for (size_t i = 0; i < cs.size(); i++) if (set.insert(cs[i]).second) kept.push_back(int(i)); }
    tr::ev("ceq", "t", name, "v", vs, "eq", eq, "hash", hs, "kept", kept, "real", std::is_same_v<T, double>);
    Candidate<T> a = cs[0], b = cs[1]; const auto was = st(a);
    Candidate<T> copy(a), moved(std::move(a)); b = copy; const auto assigned = st(b); Candidate<T> c2; c2 = std::move(b);
    tr::ev("ccopy", "was", was, "st", std::vector<tr::Raw>{ st(copy), st(moved), assigned, st(c2) });
    std::set<size_t> hset; int nd = 0; std::set<V> seen;
    if constexpr (!std::is_same_v<T, double>) for (int i = 0; i < 60; i++) { V v = rv(r, r.in(1, 8), std::is_same_v<T, unsigned char> ? 1 : 9); if (!seen.insert(v).second) continue; nd++; hset.insert(std::hash<Candidate<T>>{}(make(v, r))); }
    tr::ev("chash", "n", nd, "distinct", int(hset.size()));
}
int main(int argc, char** argv)
{
    tr::Args args = tr::parse(argc, argv); int cnt = 0; std::string fam; for (int i = 1; i < argc; i++) { if (!strcmp(argv[i], "--n")) cnt = atoi(argv[i + 1]); if (!strcmp(argv[i], "--fam")) fam = argv[i + 1]; }
    const auto gen = tr::lines(args.ops); const long ng = long(gen.size());
    return tr::run(args, ng + long(cnt) * (args.thorough ? 10 : 1), [&](long k)
    {
        tr::Rnd r(args.seed * 15485863 + uint64_t(k) * 29); rng::prng.seed(args.seed + uint64_t(k) * 7 + 1);
        tr::begin(k, tr::obj("fam", fam));
        if (k < ng) { V v; std::istringstream is(gen[size_t(k)]); int x; while (is >> x) v.push_back(x); given = &v; for (givenm = 0; givenm <= int(v.size()); givenm++) sorts(r); given = nullptr; return; }
        if (fam == "alg") { sorts(r); shuffles(r); searches(r); }
        else if (fam == "call") callables(r);
        else if (fam == "cand") { cands<unsigned char>(r, "bin"); cands<IntegerGene>(r, "int"); cands<size_t>(r, "perm"); cands<double>(r, "real"); cands<Mix2>(r, "user"); }
        else for (int i = 0; i < 4; i++) vectors(r);
    });
}
