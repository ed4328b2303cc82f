// D05: operation sequences on the matrix.
#include "trace.hpp"
#include "utility/matrix.hpp"
#include <sstream>
#include <memory>
using namespace gapp::detail;
using M = Matrix<int>;
using V = std::vector<int>;
struct Driver {
    std::unique_ptr<M> c[2];
    Driver() { c[0] = std::make_unique<M>(); c[1] = std::make_unique<M>(); }
    tr::Raw obs(int s)
    {
        M& y = *c[s]; const M& x = y;
        std::vector<V> el, rows, it, rit, cols; std::vector<std::vector<bool>> req, reqx; int weird = 0;
        for (size_t r = 0; r < x.nrows(); r++)
        {
            V a, b;
            for (size_t k = 0; k < x.ncols(); k++) { a.push_back(x(r, k)); if (&x(r, k) != &y(r, k) || x(r, k) != x[r][k] || &y[r][k] != &y(r, k)) weird++; }
            for (int v : x[r]) b.push_back(v);
            el.push_back(a); rows.push_back(b);
            V conv(y[r]); gapp::small_vector<int> sv(x[r]); std::span<const int> sp = x[r];
            if (conv != b || !std::equal(sv.begin(), sv.end(), b.begin(), b.end()) || !std::equal(sp.begin(), sp.end(), b.begin(), b.end())) weird++;
            if (!(x[r] == b) || x[r].size() != x.ncols() || x[r].ncols() != x.ncols() || x[r].empty() != (x.ncols() == 0)) weird++;
            if (x.ncols() && (x[r].front() != b.front() || y[r].back() != b.back())) weird++;
            // equality of rows among themselves and with the rows of the other matrix, as references, constant references and vectors
            const M& z = *c[1 - s]; M& w = *c[1 - s];
            std::vector<bool> qa, qb;
            for (size_t q = 0; q < x.nrows(); q++)
            {
                V v(x[q]); bool e = x[r] == x[q]; qa.push_back(e);
                if ((y[r] == y[q]) != e || (x[r] == v) != e || (y[r] == v) != e || (v == x[r]) != e || (x[r] != v) == e || (x[r] != x[q]) == e) weird++;
                v.push_back(0); if (x[r] == v) weird++;
                v.pop_back(); if (!v.empty()) { v.pop_back(); if (y[r] == v) weird++; }
            }
            for (size_t q = 0; q < z.nrows(); q++)
            {
                bool e = x[r] == z[q]; qb.push_back(e);
                if ((y[r] == w[q]) != e || (x[r] == V(z[q])) != e) weird++;
            }
            req.push_back(qa); reqx.push_back(qb);
        }
        for (const auto& row : x) { V b; for (int v : row) b.push_back(v); it.push_back(b); }
        for (auto i = y.rbegin(); i != y.rend(); ++i) { V b; for (int v : *i) b.push_back(v); rit.push_back(b); }
        if (!x.empty()) for (size_t k = 0; k < x.ncols(); k++) cols.push_back(x.column(k));
        if (!x.empty()) { if (!(x.front() == x[0]) || !(x.back() == x[x.nrows() - 1]) || x.data() != &x(0, 0)) weird++; if ((x.end() - x.begin()) != long(x.nrows())) weird++; }
        return tr::obj("nrows", x.nrows(), "size", x.size(), "ncols", x.ncols(), "empty", x.empty(), "el", el, "rows", rows, "iter", it, "riter", rit, "cols", cols, "roweq", req, "roweqx", reqx, "weird", weird);
    }
    void op(const std::string& n, int s, V a)
    {
        M& x = *c[s]; M& y = *c[1 - s]; V out;
        auto A = [&](size_t i) { return size_t(a[i]); };
        V tail(a.size() ? a.begin() + 1 : a.begin(), a.end());
        if (n == "new") c[s] = std::make_unique<M>(A(0), A(1));
        else if (n == "newv") c[s] = std::make_unique<M>(A(0), A(1), a[2]);
        else if (n == "il")
        {
            auto row = [&](size_t r) { V v; for (size_t k = 0; k < A(1); k++) v.push_back(a[2 + r * A(1) + k]); return v; };
            using L = std::initializer_list<int>;
            auto w = [&](auto f) { f(); };
            if (A(0) == 0) x = M{};
            else if (A(0) == 1 && A(1) == 2) { auto p = row(0); x = M{ { p[0], p[1] } }; }
            else if (A(0) == 2 && A(1) == 2) { auto p = row(0), q = row(1); x = M{ { p[0], p[1] }, { q[0], q[1] } }; }
            else if (A(0) == 3 && A(1) == 1) { x = M{ { a[2] }, { a[3] }, { a[4] } }; }
            else if (A(0) == 2 && A(1) == 3) { auto p = row(0), q = row(1); x = M{ { p[0], p[1], p[2] }, { q[0], q[1], q[2] } }; }
            else { M t(A(0), A(1)); for (size_t r = 0; r < A(0); r++) for (size_t k = 0; k < A(1); k++) t(r, k) = a[2 + r * A(1) + k]; x = t; }
        }
        else if (n == "range") { const M& cy = y; c[s] = std::make_unique<M>(cy.begin() + a[0], cy.begin() + a[1]); }
        else if (n == "append") x.append_row(a);
        else if (n == "appendrow") x.append_row(static_cast<const M&>(y)[A(0)]);
        else if (n == "popback") x.pop_back();
        else if (n == "resize") x.resize(A(0), A(1), a[2]);
        else if (n == "clear") x.clear();
        else if (n == "set") x(A(0), A(1)) = a[2];
        else if (n == "setrow") x[A(0)][A(1)] = a[2];
        else if (n == "rowassign") x[A(0)] = std::span<const int>(tail);
        else if (n == "rowcopy") x[A(0)] = x[A(1)];
        else if (n == "rowfrom") x[A(0)] = static_cast<const M&>(y)[A(1)];
        else if (n == "rowswap") { using std::swap; swap(x[A(0)], x[A(1)]); }
        else if (n == "rowswapout") { x[A(0)].swap(tail); out = tail; }
        else if (n == "reserve") x.reserve(A(0), A(1));
        else if (n == "copyctor") c[s] = std::make_unique<M>(x);
        else if (n == "movector") { M t(std::move(x)); c[s] = std::make_unique<M>(std::move(t)); }
        else if (n == "swap") { using std::swap; swap(x, y); }
        else if (n == "copyassign") x = y;
        else if (n == "moveassign") { x = std::move(y); c[1 - s] = std::make_unique<M>(); }
        tr::ev(n.c_str(), "s", s, "a", a, "st", obs(s), "st2", obs(1 - s), "out", out, "eq", bool(*c[0] == *c[1]));
    }
};
int main(int argc, char** argv)
{
    auto args = tr::parse(argc, argv);
    auto gen = tr::lines(args.ops);
    const long per = 12, ng = (long(gen.size()) + per - 1) / per, nr = args.thorough ? 8000 : 1200;
    return tr::run(args, ng + nr, [&](long id) {
        tr::Rnd r(args.seed * 65537 + uint64_t(id));
        if (id < ng)
        {
            tr::begin(id, tr::obj("kind", "gen"));
            for (long g = id * per; g < std::min<long>((id + 1) * per, long(gen.size())); g++)
            {
                tr::ev("fresh");
                Driver d; std::istringstream is(gen[size_t(g)]); std::string one;
                while (std::getline(is, one, ';')) { std::istringstream os(one); std::string n; os >> n; V a; int v; while (os >> v) a.push_back(v); d.op(n, 0, a); }
            }
            return;
        }
        int mr = r.in(1, 6), mc = r.in(1, 5), len = r.in(5, 30), next = 1;
        tr::begin(id, tr::obj("kind", "random", "mr", mr, "mc", mc));
        Driver d;
        const bool few = r.chance(50);                  // few different values, so that rows are often equal or nearly equal
        auto vals = [&](V a, int n) { for (int j = 0; j < n; j++) a.push_back(few ? r.in(0, 1) : next++); return a; };
        for (int i = 0; i < len; i++)
        {
            if (few) next = r.in(0, 1);
            int s = r.chance(70) ? 0 : 1; M& x = *d.c[s]; M& y = *d.c[1 - s]; int nr2 = int(x.nrows()), nc = int(x.ncols()), onr = int(y.nrows());
            switch (r.in(0, 19))
            {
                case 0: d.op("new", s, { r.in(0, mr), r.in(0, mc) }); break;
                case 1: d.op("newv", s, { r.in(0, mr), r.in(0, mc), next++ }); break;
                case 2: { int a = r.in(0, mr), b = r.in(1, mc); d.op("il", s, vals({ a, b }, a * b)); break; }
                case 3: { int a = r.in(0, onr), b = r.in(a, onr); if (onr) d.op("range", s, { a, b }); break; }
                case 4: case 5: case 6: d.op("append", s, vals({}, nr2 ? nc : r.in(1, mc))); break;
                case 7: if (onr && (!nr2 || y.ncols() == x.ncols())) d.op("appendrow", s, { r.in(0, onr - 1) }); break;
                case 8: if (nr2) d.op("popback", s, {}); break;
                case 9: d.op("resize", s, { r.in(0, mr), r.chance(60) ? nc : r.in(0, mc), next++ }); break;
                case 10: d.op(r.chance(30) ? "clear" : "copyctor", s, {}); break;
                case 11: case 12: if (nr2) d.op(r.chance(50) ? "set" : "setrow", s, { r.in(0, nr2 - 1), r.in(0, nc - 1), next++ }); break;
                case 13: if (nr2) d.op(r.chance(50) ? "rowassign" : "rowswapout", s, vals({ r.in(0, nr2 - 1) }, nc)); break;
                case 14: if (nr2) d.op(r.chance(50) ? "rowcopy" : "rowswap", s, { r.in(0, nr2 - 1), r.in(0, nr2 - 1) }); break;
                case 15: if (nr2 && onr && x.ncols() == y.ncols()) d.op("rowfrom", s, { r.in(0, nr2 - 1), r.in(0, onr - 1) }); break;
                case 16: d.op("swap", s, {}); break;
                case 17: d.op("copyassign", s, {}); break;
                case 18: d.op("moveassign", s, {}); break;
                default: d.op(r.chance(50) ? "movector" : "reserve", s, { mr, mc }); break;
            }
        }
    });
}
