// Iterators over the library's containers: positions, distances, comparisons and accesses, held across changes of the container.
#include "trace.hpp"
#include <algorithm>
#include <memory>
#include <sstream>
#include <numeric>
#include "utility/iterators.hpp"
#include "utility/circular_buffer.hpp"
#include "utility/matrix.hpp"
#include "utility/small_vector.hpp"
using namespace gapp;
using V = std::vector<int>;

struct OnVector {                                           // stable iterators over a vector that reallocates
    static constexpr bool mut = true, grow = true, algs = true;
    std::vector<int> c; explicit OnVector(const V& v) : c(v) { c.shrink_to_fit(); }
    auto b() { return detail::stable_begin(c); } auto e() { return detail::stable_end(c); }
    auto cb() { return detail::stable_cbegin(c); } auto ce() { return detail::stable_cend(c); }
    bool push(int v) { c.push_back(v); return true; }
    bool pop() { c.pop_back(); c.shrink_to_fit(); return true; }
    template<typename R> static int val(const R& r) { return r; }
};
struct OnRing {                                             // a circular buffer whose first element is anywhere in its storage
    static constexpr bool mut = true, grow = true, algs = true;
    detail::circular_buffer<int> c;
    OnRing(const V& v, int cap, int rot) : c(size_t(cap))
    {
        for (int i = 0; i < rot && cap; i++) { c.push_back(-1 - i); c.pop_front(); }
        for (int x : v) c.push_back(x);
    }
    auto b() { return c.begin(); } auto e() { return c.end(); }
    auto cb() { return c.cbegin(); } auto ce() { return c.cend(); }
    bool push(int v) { if (c.full()) return false; c.push_back(v); return true; }
    bool pop() { c.pop_back(); return true; }
    template<typename R> static int val(const R& r) { return r; }
};
struct OnRows {                                             // the rows of a matrix
    static constexpr bool mut = true, grow = true, algs = false;
    detail::Matrix<int> c; size_t nc;
    OnRows(const V& v, size_t n) : c(0, n), nc(n) { for (int x : v) push(x); }
    auto b() { return c.begin(); } auto e() { return c.end(); }
    auto cb() { return std::as_const(c).begin(); } auto ce() { return std::as_const(c).end(); }
    bool push(int v) { std::vector<int> r(nc); std::iota(r.begin(), r.end(), v); c.append_row(r); return true; }
    bool pop() { c.resize(c.nrows() - 1, nc); return true; }
    template<typename R> static int val(const R& r) { int x = r[0]; for (size_t i = 0; i < r.size(); i++) if (r[i] != x + int(i)) return -77; return x; }
    template<typename R> void set(R&& r, int v) { std::vector<int> n(nc); std::iota(n.begin(), n.end(), v); r = n; }
};
struct OnSmall {                                            // the small vector's iterators
    static constexpr bool mut = true, grow = false, algs = true;
    small_vector<int> c; explicit OnSmall(const V& v) : c(v.begin(), v.end()) {}
    auto b() { return c.begin(); } auto e() { return c.end(); }
    auto cb() { return c.cbegin(); } auto ce() { return c.cend(); }
    bool push(int) { return false; } bool pop() { return false; }
    template<typename R> static int val(const R& r) { return r; }
};
template<typename T> struct OnIota {
    static constexpr bool mut = false, grow = false, algs = false;
    T lo; size_t n; OnIota(T l, size_t k) : lo(l), n(k) {}
    auto b() { return detail::iota_iterator<T>(lo); } auto e() { return detail::iota_iterator<T>(T(lo + T(n))); }
    auto cb() { return b(); } auto ce() { return e(); }
    bool push(int) { return false; } bool pop() { return false; }
    template<typename R> static int val(const R& r) { return int(r); }
};
template<typename A> struct Rev : A {                       // and the reverse iterators of all of these
    static constexpr bool grow = false;
    using A::A;
    auto b() { return std::make_reverse_iterator(A::e()); } auto e() { return std::make_reverse_iterator(A::b()); }
    auto cb() { return std::make_reverse_iterator(A::ce()); } auto ce() { return std::make_reverse_iterator(A::cb()); }
};

template<typename A> struct Driver
{
    A a; using It = decltype(std::declval<A&>().b()); using CIt = decltype(std::declval<A&>().cb());
    std::vector<It> h;
    explicit Driver(A&& x) : a(std::move(x)) {}
    size_t size() { size_t n = 0; for (auto i = a.b(); !(i == a.e()); ++i) if (++n > 1000) break; return n; }
    template<typename B, typename I> int pos(B b, size_t n, const I& it) { int k = 0; for (; size_t(k) <= n; ++k) { if (b == it) return k; if (size_t(k) < n) ++b; } return -1; }
    template<typename X, typename Y> V rel(const X& x, const Y& y) { return { int(x - y), x == y, x != y, x < y, x <= y, x > y, x >= y }; }
    template<typename X> V seen(const X& x, int p, int n) { V o; for (int k = -p; k < n - p; k++) o.push_back(A::val(x[k])); return o; }
    template<typename X> int arrow(const X& x)
    {
        if constexpr (std::is_same_v<A, OnRows>) return A::val(*x.operator->().operator->());
        else if constexpr (std::is_pointer_v<X>) return A::val(*x);
        else if constexpr (requires { *x.operator->(); }) return A::val(*x.operator->());
        else if constexpr (requires { *x.operator->().operator->(); }) return A::val(*x.operator->().operator->());
        else return A::val(*x);
    }
    tr::Raw obs()
    {
        const size_t n = size(); const int N = int(n);
        V fwd, back, cf; for (auto i = a.b(); i != a.e(); ++i) fwd.push_back(A::val(*i));
        { auto i = a.e(); for (size_t k = 0; k < n; k++) { --i; back.push_back(A::val(*i)); } if (!(i == a.b())) back.push_back(-55); }
        for (auto i = a.cb(); i < a.ce(); i++) cf.push_back(A::val(*i));
        std::vector<V> rels, crels, mrels, sees; V p, cp, v, ar;
        for (size_t i = 0; i < h.size(); i++)
        {
            const It x = h[i]; const CIt cx = x; const int k = pos(a.b(), n, x); p.push_back(k); cp.push_back(pos(a.cb(), n, cx));
            if (k < 0) { sees.push_back({}); v.push_back(-1); ar.push_back(-1); continue; }
            sees.push_back(seen(x, k, N)); if (seen(cx, k, N) != sees.back()) sees.back().push_back(-44);
            v.push_back(k < N ? A::val(*x) : -1); ar.push_back(k < N ? arrow(x) : -1); if (k < N && (A::val(*cx) != v.back() || arrow(cx) != v.back())) ar.back() = -43;
            for (size_t j = 0; j < h.size(); j++) { rels.push_back(rel(h[i], h[j])); crels.push_back(rel(CIt(h[i]), CIt(h[j]))); mrels.push_back({ int(CIt(h[i]) - CIt(h[j])), int(std::distance(h[j], h[i])) }); }
        }
        return tr::obj("fwd", fwd, "back", back, "cfwd", cf, "len", int(a.e() - a.b()), "neg", int(a.b() - a.e()), "pos", p, "cpos", cp, "val", v, "arrow", ar, "see", sees, "rel", rels, "crel", crels, "mrel", mrels);
    }
    void ev(const char* op, int x, int y, int ret) { tr::ev(op, "h", x + 1, "n", y, "ret", ret, "o", obs()); }
    int at(const It& x) { return pos(a.b(), size(), x); }
    void start(int k) { for (int i = 0; i < k; i++) h.push_back(a.b()); It x{}, y{}; tr::ev("start", "k", k, "zero", x == y && !(x != y), "o", obs()); }
    // applies one operation of the specification; the random choice r picks among the ways to write it
    void apply(tr::Rnd& r, const std::string& op, int i, int arg, int arg2 = 0)
    {
        const int n = int(size()); It& x = h[size_t(i)]; const int p = at(x);
        if (p < 0 || p > n) { tr::ev("lost", "h", i); return; }
        if (op == "begin") { x = a.b(); ev("begin", i, 0, -1); }
        else if (op == "end") { x = a.e(); ev("end", i, 0, -1); }
        else if (op == "inc") { if (p < n) { It& y = ++x; ev("inc", i, 0, &y == &x ? at(y) : -9); } }
        else if (op == "postinc") { if (p < n) { It y = x++; ev("postinc", i, 0, at(y)); } }
        else if (op == "dec") { if (p > 0) { It& y = --x; ev("dec", i, 0, &y == &x ? at(y) : -9); } }
        else if (op == "postdec") { if (p > 0) { It y = x--; ev("postdec", i, 0, at(y)); } }
        else if (op == "add") { if (p + arg < 0 || p + arg > n) return; It& y = r.chance(50) ? (x += arg) : (x -= -arg); ev("add", i, arg, &y == &x ? at(y) : -9); }
        else if (op == "plus") { if (p + arg < 0 || p + arg > n) return; const int w = r.in(0, 3); It y = w == 0 ? x + arg : w == 1 ? arg + x : w == 2 ? x - (-arg) : x; if (w == 3) std::advance(y, arg); ev("plus", i, arg, at(y)); }
        else if (op == "copy") { x = h[size_t(arg)]; ev("copy", i, arg + 1, at(x)); }
        else if (op == "set") { if constexpr (A::mut) if (p < n) { set(*x, arg); ev("set", i, arg, -1); } }
        else if (op == "setat") { if constexpr (A::mut) if (p + arg2 >= 0 && p + arg2 < n) { set(x[arg2], arg); tr::ev("setat", "h", i + 1, "d", arg2, "n", arg, "ret", -1, "o", obs()); } }
        else if (op == "push") { if constexpr (A::grow) if (a.push(arg)) ev("push", i, arg, -1); }
        else if (op == "pop") { if constexpr (A::grow) if (n) { for (auto& q : h) if (at(q) == n) return; a.pop(); ev("pop", i, 0, -1); } }
        else if constexpr (A::algs)
        {
            if (op == "sort") { if (r.chance(50)) std::sort(a.b(), a.e()); else { std::partial_sort(a.b(), x, a.e()); std::sort(x, a.e()); } ev("sort", i, 0, -1); }
            else if (op == "reverse") { std::reverse(a.b(), x); ev("reverse", i, 0, -1); }
            else if (op == "rotate") { It y = std::rotate(a.b(), x, a.e()); ev("rotate", i, 0, at(y)); }
            else if (op == "find") { auto y = std::find(a.cb(), a.ce(), arg); ev("find", i, arg, pos(a.cb(), size_t(n), y)); }
            else if (op == "swapat") { It y = h[size_t(arg)]; if (p < n && at(y) < n) { std::iter_swap(x, y); ev("swapat", i, arg + 1, -1); } }
        }
    }
    void step(tr::Rnd& r, int& next)
    {
        static const char* ops[] = { "begin", "end", "inc", "postinc", "dec", "postdec", "add", "add", "plus", "plus", "copy", "set", "set", "setat", "push", "push", "pop", "sort", "reverse", "rotate", "find", "swapat" };
        const std::string op = ops[r.in(0, 21)]; const int n = int(size()), i = r.in(0, int(h.size()) - 1), j = r.in(0, int(h.size()) - 1), to = r.in(0, n), d = to - at(h[size_t(i)]);
        if (op == "copy" || op == "swapat") apply(r, op, i, j);
        else if (op == "find") apply(r, op, i, n && r.chance(80) ? A::val(a.cb()[r.in(0, n - 1)]) : -3);
        else if (op == "add" || op == "plus") apply(r, op, i, d);
        else { apply(r, op, i, next, d); next += 10; }
    }
    void play(tr::Rnd& r, const std::string& line)
    {
        std::istringstream is(line); std::string one;
        while (std::getline(is, one, ';')) { std::istringstream os(one); std::string n; int i = 0, x = 0; if (!(os >> n >> i >> x) || i < 1 || i > int(h.size())) { tr::ev("badscript", "x", one); return; } apply(r, n, i - 1, x, 0); }
    }
    template<typename R> void set(R&& r, int v) { if constexpr (requires { a.set(std::forward<R>(r), v); }) a.set(std::forward<R>(r), v); else r = v; }
};
static std::string script;
template<typename A> void go(tr::Rnd& r, A&& a, int len)
{
    Driver<std::decay_t<A>> d(std::move(a));
    if (!script.empty()) { d.start(2); d.play(r, script); return; }
    d.start(r.in(1, 3)); int next = 1000; while (len--) d.step(r, next);
}

int main(int argc, char** argv)
{
    tr::Args args = tr::parse(argc, argv); int cnt = 0; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--n")) cnt = atoi(argv[i + 1]);
    const auto gen = tr::lines(args.ops); const long ng = long(gen.size());
    return tr::run(args, ng + long(cnt) * (args.thorough ? 10 : 1), [&](long k)
    {
        script = k < ng ? gen[size_t(k)] : "";
        tr::Rnd r(args.seed * 104729 + uint64_t(k) * 31);
        const int n = k < ng ? 3 : r.in(0, r.chance(10) ? 12 : 6), kind = int(k % 12), len = r.in(4, 25);
        V v; for (int i = 0; i < n; i++) v.push_back(10 * (i + 1)); for (int i = n - 1; i > 0; i--) if (k >= ng || r.chance(30)) std::swap(v[size_t(i)], v[size_t(r.in(0, i))]);
        const int cap = n + r.in(0, 3), rot = r.in(0, cap), nc = r.in(1, 3), lo = r.in(-4, 4);
        V q = v; if (kind == 4 || kind == 9) { q.clear(); for (int i = 0; i < n; i++) q.push_back(lo + 4 + i); } if (kind == 5) { q.clear(); for (int i = 0; i < n; i++) q.push_back(lo + i); }
        if (kind >= 6 && kind <= 9) std::reverse(q.begin(), q.end());
        tr::begin(k, tr::obj("kind", kind, "q", q));
        switch (kind)
        {
            case 0: case 10: return go(r, OnVector(v), len);
            case 1: case 11: return go(r, OnRing(v, cap, rot), len);
            case 2: return go(r, OnRows(v, size_t(nc)), len);
            case 3: return go(r, OnSmall(v), len);
            case 4: return go(r, OnIota<size_t>(size_t(lo + 4), size_t(n)), len);
            case 5: return go(r, OnIota<int>(lo, size_t(n)), len);
            case 6: return go(r, Rev<OnVector>(v), len);
            case 7: return go(r, Rev<OnRing>(v, cap, rot), len);
            case 8: return go(r, Rev<OnSmall>(v), len);
            case 9: return go(r, Rev<OnIota<size_t>>(size_t(lo + 4), size_t(n)), len);
        }
    });
}
