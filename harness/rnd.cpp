// The random number utilities: ranges, distinct samples, frequencies. Numbers are written as order preserving keys of four 16 bit limbs.
#include "trace.hpp"
#include <gapp.hpp>
#include <utility/qrng.hpp>
#include <cmath>
#include <bit>
#include <limits>
#include <list>
#include <map>
#include <set>
using namespace gapp;
using Ints = std::vector<int>;
static Ints limbs(uint64_t k) { return { int(k >> 48), int(k >> 32 & 0xFFFF), int(k >> 16 & 0xFFFF), int(k & 0xFFFF) }; }
template<typename T> uint64_t key(T x)
{
    if constexpr (std::is_floating_point_v<T>)
    {
        if (std::isnan(x)) return ~uint64_t(0);
        const double d = x == 0 ? 0.0 : double(x);
        const uint64_t b = std::bit_cast<uint64_t>(d);
        return b >> 63 ? ~b : b | (uint64_t(1) << 63);
    }
    else if constexpr (std::is_signed_v<T>) return uint64_t(int64_t(x)) ^ (uint64_t(1) << 63);
    else return uint64_t(x);
}
template<typename T> Ints lim(T x) { return limbs(key(x)); }
template<typename T> const char* tname()
{
    if (std::is_same_v<T, bool>) return "bool";
    if (std::is_floating_point_v<T>) return sizeof(T) == 4 ? "float" : sizeof(T) == 8 ? "double" : "long";
    static const char* s[] = { "i1", "i2", "i4", "i8" }; static const char* u[] = { "u1", "u2", "u4", "u8" };
    return (std::is_signed_v<T> ? s : u)[std::bit_width(sizeof(T)) - 1];
}
// Distinct keys, frequencies by eighths of the range, extremes.
template<typename T> struct Tally
{
    T lo, hi; bool any = false; T mn{}, mx{}; Ints h = Ints(10, 0); std::map<uint64_t, int> small; bool issmall;
    void add(T x)
    {
        if (!any || key(x) < key(mn)) mn = x;
        if (!any || key(x) > key(mx)) mx = x;
        any = true;
        int b;
        if (key(x) < key(lo)) b = 8;
        else if (key(x) > key(hi)) b = 9;
        else if constexpr (std::is_floating_point_v<T>) b = hi > lo ? std::min(7, int(8.0L * ((long double)(x) - (long double)(lo)) / ((long double)(hi) - (long double)(lo)))) : 0;
        else b = int((unsigned __int128)(key(x) - key(lo)) * 8 / ((unsigned __int128)(key(hi) - key(lo)) + 1));
        h[size_t(b)]++;
        if (issmall) small[key(x) - key(lo)]++;
    }
};
template<typename T> std::pair<T, T> intrange(tr::Rnd& r)
{
    const T lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
    if constexpr (std::is_same_v<T, bool>) { bool a = r.chance(50), b = r.chance(50); return { std::min(a, b), std::max(a, b) }; }
    else switch (r.in(0, 7))
    {
        case 0: return { lo, hi };
        case 1: return { lo, T(lo + r.in(0, 9)) };
        case 2: return { T(hi - r.in(0, 9)), hi };
        case 3: { T x = T(r.next()); return { x, x }; }
        case 4: { T x = T(r.next()), y = T(r.next()); return { std::min(x, y), std::max(x, y) }; }
        case 5: return { T(0), hi };
        case 6: return std::is_signed_v<T> ? std::pair<T, T>{ lo, T(-1) } : std::pair<T, T>{ T(hi / 2), hi };
        default: { T x = std::is_signed_v<T> ? T(r.in(-20, 20)) : T(r.in(0, 40)); return { x, T(x + r.in(0, 15)) }; }
    }
}
template<typename T> void small_counts(Tally<T>& t, Ints& c) { if (t.issmall) for (uint64_t i = 0; i <= key(t.hi) - key(t.lo); i++) c.push_back(t.small.count(i) ? t.small[i] : 0); }
template<typename T> void fam_int(tr::Rnd& r, int n)
{
    auto [lo, hi] = intrange<T>(r);
    Tally<T> t{ lo, hi }; t.issmall = key(hi) - key(lo) < 32;
    for (int i = 0; i < n; i++) t.add(rng::randomInt<T>(lo, hi));
    Ints c; small_counts(t, c);
    tr::ev("int", "t", tname<T>(), "lo", lim(lo), "hi", lim(hi), "mn", lim(t.mn), "mx", lim(t.mx), "n", n, "h", t.h, "c", c, "small", t.issmall, "wide", key(hi) - key(lo) > 1000000);
}
template<typename T> void fam_real(tr::Rnd& r, int n)
{
    using L = std::numeric_limits<T>;
    T lo, hi; bool wide = true;
    const int k = r.in(0, 9);
    switch (k)
    {
        case 0: lo = 1; hi = T(1) + L::epsilon() * r.in(1, 4); wide = false; break;
        case 1: lo = 0; hi = L::denorm_min() * r.in(1, 4); wide = false; break;
        case 2: lo = T(-r.in(1, 9)); hi = std::nextafter(lo, L::max()); wide = false; break;
        case 3: lo = hi = T(r.in(-9, 9)) / 8; wide = false; break;
        case 4: lo = L::max() / -4; hi = L::max() / 4; break;
        case 5: lo = -L::min() / 3; hi = L::min(); break;
        case 6: lo = T(1e6); hi = T(1e6 + 1); wide = sizeof(T) > 4; break;
        case 7: lo = 0; hi = L::max(); break;
        default: lo = T(r.in(-1000, 1000)) / 7; hi = lo + T(r.in(1, 1000)) / 13;
    }
    const bool unit = r.chance(25);
    if (unit) { lo = 0; hi = 1; wide = true; }
    Tally<T> t{ lo, hi }; t.issmall = false;
    for (int i = 0; i < n; i++) t.add(unit ? rng::randomReal<T>() : rng::randomReal<T>(lo, hi));
    tr::ev("real", "t", tname<T>(), "lo", lim(lo), "hi", lim(hi), "mn", lim(t.mn), "mx", lim(t.mx), "n", n, "h", t.h, "wide", wide);
}
template<typename T> void fam_binom(tr::Rnd& r, int N)
{
    // p in sixteenths, or tiny; the mean is compared in units of 1/16
    const int64_t big = int64_t(std::min<uint64_t>(uint64_t(std::numeric_limits<T>::max()), 2000));
    const T n = T(r.chance(30) ? r.in(0, 6) : r.chance(50) ? r.in(0, int(std::min<int64_t>(big, 60))) : r.in(0, int(big)));
    const int p16 = r.chance(15) ? 0 : r.chance(15) ? 16 : r.in(1, 15);
    const bool tiny = r.chance(10);
    const double p = tiny ? std::numeric_limits<double>::denorm_min() : p16 / 16.0;
    long sum = 0; int64_t mn = 1 << 30, mx = -(1 << 30); double sq = 0; const double mean = double(n) * p;
    for (int i = 0; i < N; i++) { const int64_t x = int64_t(rng::randomBinomial<T>(n, p)); sum += x; sq += (double(x) - mean) * (double(x) - mean); mn = std::min(mn, x); mx = std::max(mx, x); }
    auto cl = [](int64_t x) { return int(std::clamp<int64_t>(x, -1000000, 1000000)); };
    tr::ev("binom", "t", tname<T>(), "n", int(n), "p", tiny ? 0 : p16, "tiny", tiny, "cnt", N, "mn", cl(mn), "mx", cl(mx), "avg", int(std::lround(double(sum) / N * 256)), "var", int(std::lround(sq / N * 16)));
}
template<typename T> void fam_uniq(tr::Rnd& r, bool huge, bool thorough)
{
    uint64_t len; const uint64_t full = uint64_t(std::numeric_limits<T>::max()) - uint64_t(std::numeric_limits<T>::min());
    if (huge) len = r.chance(40) ? 65536 + uint64_t(r.in(0, 9)) : r.chance(50) ? full : 65536 + r.next() % 1000000;
    else len = r.chance(70) ? uint64_t(r.in(0, 30)) : r.chance(50) ? uint64_t(r.in(30, 700)) : 65530 + uint64_t(r.in(0, 5));
    len = std::min(len, full);
    T lo;
    switch (r.in(0, 3))
    {
        case 0: lo = std::numeric_limits<T>::min(); break;
        case 1: lo = T(uint64_t(std::numeric_limits<T>::max()) - len); break;
        default: lo = T(uint64_t(std::numeric_limits<T>::min()) + (full - len ? r.next() % (full - len) : 0));
    }
    const T hi = T(uint64_t(lo) + len);
    // the number drawn: none, one, all, around the limit between the methods, or any
    uint64_t c = r.chance(10) ? 0 : r.chance(15) ? 1 : r.chance(15) ? len : r.chance(20) ? uint64_t(0.6 * double(len)) + uint64_t(r.in(0, 2)) : (len + 1 ? r.next() % (len + 1) : r.next());
    c = std::min({ c, len, uint64_t(thorough ? 6000 : 1500) });
    auto v = rng::sampleUnique<T>(lo, hi, size_t(c));
    bool fits = len < (1u << 30);
    std::vector<Ints> big; Ints off;
    for (T x : v) if (fits) { int64_t o = int64_t(key(x) - key(lo)); off.push_back(int(std::clamp<int64_t>(o, -1, 1 << 30))); } else big.push_back(lim(x));
    tr::ev("uniq", "t", tname<T>(), "len", fits ? int(len) : -1, "cnt", c, "off", off, "big", big, "lo", lim(lo), "hi", lim(hi), "size", v.size());
}
template<typename T> void fam_uniqfreq(tr::Rnd& r, int n)
{
    const int len = r.in(1, 14), cnt = r.in(0, len);
    const T lo = r.chance(30) ? std::numeric_limits<T>::min() : r.chance(30) ? T(std::numeric_limits<T>::max() - len) : T(r.in(0, 50));
    Ints h(size_t(len + 1), 0);
    for (int i = 0; i < n; i++) for (T x : rng::sampleUnique<T>(lo, T(lo + T(len)), size_t(cnt))) { uint64_t o = key(x) - key(lo); h[o < uint64_t(len) ? size_t(o) : size_t(len)]++; }
    tr::ev("uniqfreq", "t", tname<T>(), "len", len, "cnt", cnt, "n", n, "h", h);
}
// large ranges: how many of the samples hold each of the first and last values, and how the rest spreads over eighths of the range
template<typename T> void fam_uniqwide(tr::Rnd& r, int n)
{
    const uint64_t unit = r.chance(50) ? 8192 + uint64_t(r.in(0, 3)) : uint64_t(1) << r.in(14, 25), len = 8 * unit; const int cnt = r.in(1, 90), N = std::max(1, n / cnt);
    const T lo = r.chance(30) ? std::numeric_limits<T>::min() : r.chance(30) ? T(uint64_t(std::numeric_limits<T>::max()) - len) : T(r.in(0, 50));
    Ints h(9, 0), edge(8, 0);
    for (int i = 0; i < N; i++) for (T x : rng::sampleUnique<T>(lo, T(uint64_t(lo) + len), size_t(cnt)))
    {
        const uint64_t o = key(x) - key(lo); h[o < len ? size_t(o / unit) : 8]++;
        if (o < 4) edge[size_t(o)]++; else if (o < len && len - o <= 4) edge[size_t(8 - (len - o))]++;
    }
    tr::ev("uniqwide", "t", tname<T>(), "unit", int(unit), "cnt", cnt, "n", N, "h", h, "edge", edge);
}
template<typename T> void fam_cdf(tr::Rnd& r, int n)
{
    const int len = r.chance(20) ? r.in(33, 120) : r.in(1, 12);
    Ints w; int tot = 0; bool den = r.chance(25);
    const int style = r.in(0, 3);
    for (int i = 0; i < len; i++) { int x = style == 0 ? r.in(0, 1) : style == 1 ? (r.chance(60) ? 0 : r.in(1, 5)) : style == 2 ? r.in(0, 20) : (i == 0 || i == len - 1 ? 0 : r.in(1, 4)); w.push_back(x); tot += x; }
    if (tot == 0) { w[size_t(r.in(0, len - 1))] = 1; tot = 1; }
    std::vector<T> cdf; int s = 0;
    const T unit = den ? std::numeric_limits<T>::denorm_min() : r.chance(50) ? T(1) / T(tot) : r.chance(50) ? T(1) : T(1e30);
    for (int x : w) { s += x; cdf.push_back(T(s) * unit); }
    Ints c(size_t(len + 1), 0);
    for (int i = 0; i < n; i++) { size_t k = rng::sampleCdf<T>(std::span<const T>(cdf)); c[std::min(k, size_t(len))]++; }
    tr::ev("cdf", "t", tname<T>(), "w", w, "tot", tot, "n", n, "c", c, "den", den);
}
static void fam_elem(tr::Rnd& r, int n)
{
    const int len = r.in(1, 20), k = r.in(0, 2);
    std::vector<int> v; std::list<int> l; for (int i = 0; i < len; i++) { v.push_back(i); l.push_back(i); }
    Ints c(size_t(len + 1), 0);
    for (int i = 0; i < n; i++)
    {
        size_t x = 0;
        if (k == 0) x = rng::randomIndex(v);
        else if (k == 1) { auto it = rng::randomElement(v.begin(), v.end()); x = size_t(it - v.begin()); }
        else { auto it = rng::randomElement(l.begin(), l.end()); x = it == l.end() ? size_t(len) : size_t(*it); }
        c[std::min(x, size_t(len))]++;
    }
    tr::ev("elem", "k", k, "len", len, "n", n, "c", c);
}
static void fam_bool(tr::Rnd&, int n)
{
    // pairs of consecutive values, so that runs and alternations are seen too
    Ints c(4, 0); int same64 = 0; std::vector<bool> h;
    for (int i = 0; i < n; i++) { int a = rng::randomBool(), b = rng::randomBool(); c[size_t(2 * a + b)]++; h.push_back(a); h.push_back(b); }
    for (size_t i = 64; i < h.size(); i++) same64 += h[i] == h[i - 64];
    int same63 = 0; for (size_t i = 63; i < h.size(); i++) same63 += h[i] == h[i - 63];
    tr::ev("bool", "n", n, "c", c, "s64", same64, "s63", same63);
}
template<typename T> void fam_normal(tr::Rnd& r, int n)
{
    // how many lie below -2, -1, 0, 1, 2 standard deviations from the mean
    const double m = r.in(-20, 20), sd = r.chance(15) ? 0 : r.in(1, 40) / 8.0;
    Ints c(5, 0); int off = 0; int fin = 0;
    for (int i = 0; i < n; i++) { T x = rng::randomNormal<T>(T(m), T(sd)); fin += std::isfinite(x); off += x != T(m); for (int k = -2; k <= 2; k++) c[size_t(k + 2)] += double(x) < m + k * sd; }
    tr::ev("normal", "t", tname<T>(), "n", n, "c", c, "zero", sd == 0, "off", off, "fin", fin);
}
template<typename T> void fam_poisson(tr::Rnd& r, int n)
{
    const int m16 = r.chance(50) ? r.in(1, 60) : r.in(60, 800);
    long sum = 0; int neg = 0; double sq = 0;
    for (int i = 0; i < n; i++) { T x = rng::randomPoisson<T>(m16 / 16.0); sum += long(x); neg += x < 0; sq += (double(x) - m16 / 16.0) * (double(x) - m16 / 16.0); }
    tr::ev("poisson", "t", tname<T>(), "n", n, "m", m16, "avg", int(std::lround(double(sum) / n * 256)), "var", int(std::lround(sq / n * 16)), "neg", neg);
}
template<typename T> void fam_quasi(tr::Rnd& r)
{
    const size_t dim = size_t(r.in(1, 12));
    const T seed = r.chance(50) ? T(0.5) : T(r.in(0, 40)) / 8;
    rng::QuasiRandom<T> a(dim, seed), b(dim, T(r.in(0, 7)) / 8);
    b.reset(seed); auto c = a;
    bool same = a.dim() == dim, inside = true, eqd = true, fresh = true; std::set<std::vector<uint64_t>> seen; Ints h(10, 0);
    const int n = 400;
    std::vector<std::vector<T>> hist;
    for (int i = 0; i < n; i++)
    {
        auto p = a(), q = b();
        same = same && p == q && p.size() == dim;
        for (T x : p) { inside = inside && 0 <= x && x < 1; }
        std::vector<uint64_t> kk; for (T x : p) kk.push_back(key(x));
        fresh = seen.insert(kk).second && fresh;
        h[size_t(std::clamp(int(double(p[0]) * 8), 0, 7))]++;
        hist.push_back(std::vector<T>(p.begin(), p.end()));
    }
    const int d = r.in(0, n - 1);
    c.discard(size_t(d)); auto p = c(); eqd = std::vector<T>(p.begin(), p.end()) == hist[size_t(d)];
    tr::ev("quasi", "t", tname<T>(), "dim", dim, "n", n, "same", same, "inside", inside, "disc", eqd, "fresh", fresh, "h", h);
}
int main(int argc, char** argv)
{
    tr::Args a = tr::parse(argc, argv);
    std::string fam = "int"; int cnt = 0;
    for (int i = 1; i < argc; i++) { if (!strcmp(argv[i], "--fam")) fam = argv[i + 1]; if (!strcmp(argv[i], "--n")) cnt = atoi(argv[i + 1]); }
    return tr::run(a, long(cnt) * (a.thorough ? 8 : 1), [&](long k)
    {
        tr::Rnd r(a.seed * 1000003 + uint64_t(k) * 31 + fam.size());
        rng::prng.seed(uint64_t(a.seed * 7919 + k));
        tr::begin(k, tr::obj("fam", fam));
        const int n = a.thorough ? 40000 : 8000;
        auto ints = [&](auto f) { switch (r.in(0, 7)) { case 0: f(int8_t{}); break; case 1: f(uint8_t{}); break; case 2: f(int16_t{}); break; case 3: f(uint16_t{}); break; case 4: f(int32_t{}); break; case 5: f(uint32_t{}); break; case 6: f(int64_t{}); break; default: f(uint64_t{}); } };
        auto reals = [&](auto f) { r.chance(50) ? f(float{}) : f(double{}); };
        if (fam == "range")
        {
            if (r.chance(5)) fam_int<bool>(r, n);
            else if (r.chance(50)) ints([&](auto t) { fam_int<decltype(t)>(r, n); });
            else reals([&](auto t) { fam_real<decltype(t)>(r, n); });
        }
        else if (fam == "binom") { if (r.chance(60)) ints([&](auto t) { fam_binom<decltype(t)>(r, n); }); else if (r.chance(50)) fam_poisson<int>(r, n); else reals([&](auto t) { fam_normal<decltype(t)>(r, 100000); }); }
        else if (fam == "uniq") { if (r.chance(7)) { switch (r.in(0, 3)) { case 0: fam_uniqwide<int32_t>(r, n); break; case 1: fam_uniqwide<uint32_t>(r, n); break; case 2: fam_uniqwide<int64_t>(r, n); break; default: fam_uniqwide<uint64_t>(r, n); } }
                                  else if (r.chance(20)) { switch (r.in(0, 3)) { case 0: fam_uniq<int32_t>(r, true, a.thorough); break; case 1: fam_uniq<uint32_t>(r, true, a.thorough); break; case 2: fam_uniq<int64_t>(r, true, a.thorough); break; default: fam_uniq<uint64_t>(r, true, a.thorough); } }
                                  else if (r.chance(20)) ints([&](auto t) { fam_uniqfreq<decltype(t)>(r, n); });
                                  else ints([&](auto t) { fam_uniq<decltype(t)>(r, false, a.thorough); }); }
        else if (fam == "choice") { const int z = r.in(0, 19); if (z < 11) reals([&](auto t) { fam_cdf<decltype(t)>(r, n); }); else if (z < 16) fam_elem(r, n); else if (z < 18) fam_bool(r, 200000); else reals([&](auto t) { fam_quasi<decltype(t)>(r); }); }
    });
}
