// Concurrent programs over the library's own synchronisation, run under the deterministic scheduler of shim.hpp.
// Compiled with  -include shim.hpp.   families: queue lock rcu pool merge rng
#include "gapp.hpp"
#include "utility/concurrent_queue.hpp"
#include "utility/spinlock.hpp"
#include "utility/shared_spinlock.hpp"
#include "utility/latch.hpp"
#include "utility/rcu.hpp"
#include "utility/rng.hpp"
#include "utility/thread_pool.hpp"
#include "core/population.hpp"
using namespace gapp;
using Prog = std::vector<std::vector<std::string>>;      // the operations of every thread

static std::string fam = "queue";
static std::vector<std::string> words(const std::string& s, char sep = ' ')
{
    std::vector<std::string> r; std::string c;
    for (char x : s) if (x == sep) { if (!c.empty()) r.push_back(c); c.clear(); } else c += x;
    if (!c.empty()) r.push_back(c);
    return r;
}
static std::vector<vs::Strategy> plan(tr::Rnd& r, int n) { std::vector<vs::Strategy> p; for (int i = 0; i < n; i++) p.push_back(vs::strategy(r)); return p; }

// Runs one program under n schedules; equal traces are kept once.
static void executions(tr::Rnd& r, int n, const std::function<void()>& body, uint64_t limit = 60000)
{
    std::unordered_set<size_t> seen;
    auto& st = tr::st();
    vs::S().limit = limit; vs::S().est = 200;
    for (const auto& str : plan(r, n))
    {
        const size_t at = st.buf.size(); const bool any = st.any;
        tr::ev("exec");
        vs::execute(r.next(), str, [&] { body(); tr::ev("done"); });
        const size_t h = std::hash<std::string>{}(st.buf.substr(at));
        if (!seen.insert(h).second) { st.buf.resize(at); st.any = any; }
    }
}

// ---------------------------------------------------------------- queue
struct Item { int v = 0; vs::Data<int>* d = nullptr; };
static void fam_queue(tr::Rnd& r, const Prog* given, int n)
{
    Prog p;
    if (given) { p = *given; int v = 1; for (auto& t : p) for (auto& o : t) if (o == "put") o += " " + std::to_string(v++); }
    else
    {
        const int T = r.in(2, 4); int v = 1;
        const bool closer = r.chance(70);
        for (int t = 0; t < T; t++)
        {
            std::vector<std::string> o;
            const int role = r.in(0, 2);                    // producer, consumer, both
            for (int k = r.in(1, 3); k > 0; k--)
            {
                if (r.chance(12)) o.push_back(r.chance(50) ? "empty" : "closed");
                else if (closer && r.chance(12)) o.push_back("close");
                else if (role == 0 || (role == 2 && r.chance(50))) o.push_back("put " + std::to_string(v++));
                else o.push_back("take");
            }
            p.push_back(o);
        }
    }
    executions(r, n, [&]
    {
        detail::concurrent_queue<Item> q;
        std::vector<std::unique_ptr<vs::Data<int>>> cells;
        for (int i = 0; i < 40; i++) cells.push_back(std::make_unique<vs::Data<int>>());
        auto op = [&](int t, const std::string& s)
        {
            const auto w = words(s);
            tr::ev("call", "t", t, "f", w[0], "v", w.size() > 1 ? std::stoi(w[1]) : 0);
            int res = 0;
            if (w[0] == "put") { const int v = std::stoi(w[1]); cells[size_t(v)]->set(v * 7); res = q.emplace(Item{ v, cells[size_t(v)].get() }); }
            else if (w[0] == "take") { auto x = q.take(); if (x) { res = x->v; if (!x->d || x->d->get() != x->v * 7) res = 1000 + x->v; } }
            else if (w[0] == "close") q.close();
            else if (w[0] == "empty") res = q.empty();
            else if (w[0] == "closed") res = q.closed();
            tr::ev("ret", "t", t, "r", res);
        };
        const int resc = vs::spawn([&] { if (vs::S().rescue) { tr::ev("rescue"); op(99, "close"); } }, true);
        {
            std::vector<std::jthread> th;
            for (int t = 0; t < int(p.size()); t++) th.emplace_back([&, t] { for (auto& s : p[size_t(t)]) op(t, s); });
        }
        if (!vs::S().rescue) vs::S().th[size_t(resc)]->st = vs::RUN;
        vs::join(resc);
    });
}

// ---------------------------------------------------------------- locks
template<typename L> static void run_lock(tr::Rnd& r, const Prog& p, bool shared, int n)
{
    executions(r, n, [&]
    {
        auto lk = std::make_unique<L>();
        vs::Data<int> a, b;
        auto x_section = [&](int t)
        {
            tr::ev("in", "t", t, "k", "x");
            const int v = a.get(); a.set(v + 1); vs::point(); const int w = b.get(); b.set(w + 1);
            tr::ev("out", "t", t, "a", v + 1, "b", w + 1);
        };
        auto s_section = [&](int t)
        {
            tr::ev("in", "t", t, "k", "s");
            const int v = a.get(); vs::point(); const int w = b.get();
            tr::ev("out", "t", t, "a", v, "b", w);
        };
        auto op = [&](int t, const std::string& f)
        {
            if (f == "lock") { tr::ev("want", "t", t, "k", "x"); lk->lock(); x_section(t); lk->unlock(); tr::ev("left", "t", t); }
            else if (f == "try") { tr::ev("want", "t", t, "k", "tx"); if (lk->try_lock()) { x_section(t); lk->unlock(); tr::ev("left", "t", t); } else tr::ev("fail", "t", t); }
            else if constexpr (requires { lk->lock_shared(); })
            {
                if (f == "slock") { tr::ev("want", "t", t, "k", "s"); lk->lock_shared(); s_section(t); lk->unlock_shared(); tr::ev("left", "t", t); }
                else if (f == "stry") { tr::ev("want", "t", t, "k", "ts"); if (lk->try_lock_shared()) { s_section(t); lk->unlock_shared(); tr::ev("left", "t", t); } else tr::ev("fail", "t", t); }
                else if (f == "sboth")
                {   // a shared section may start while another one of the same thread group is inside
                    tr::ev("want", "t", t, "k", "s"); lk->lock_shared();
                    tr::ev("in", "t", t, "k", "s");
                    tr::ev("want", "t", t + 10, "k", "ts");
                    if (lk->try_lock_shared()) { tr::ev("in", "t", t + 10, "k", "s"); const int v = a.get(), w = b.get(); tr::ev("out", "t", t + 10, "a", v, "b", w); lk->unlock_shared(); tr::ev("left", "t", t + 10); }
                    else tr::ev("fail", "t", t + 10);
                    const int v = a.get(), w = b.get(); tr::ev("out", "t", t, "a", v, "b", w);
                    lk->unlock_shared(); tr::ev("left", "t", t);
                }
            }
        };
        {
            std::vector<std::jthread> th;
            for (int t = 0; t < int(p.size()); t++) th.emplace_back([&, t] { for (auto& s : p[size_t(t)]) op(t + 1, s); });
        }
        tr::ev("quiet");                                    // everything has ended: every try must succeed now
        op(0, "try");
        if (shared) { op(0, "stry"); op(0, "sboth"); }
        op(0, "try"); op(0, "lock");
    });
}
static void fam_lock(tr::Rnd& r, const Prog* given, int n)
{
    Prog p; bool shared = true;
    if (given) { p = *given; shared = false; for (auto& t : p) for (auto& s : t) if (s[0] == 's') shared = true; }
    else
    {
        shared = r.chance(65);
        const int T = r.in(2, 4), tries = r.in(0, 50);
        for (int t = 0; t < T; t++)
        {
            std::vector<std::string> o;
            for (int k = r.in(1, 3); k > 0; k--)
            {
                const bool s = shared && r.chance(55), y = r.chance(tries);
                o.push_back(s ? (y ? (r.chance(70) ? "stry" : "sboth") : "slock") : (y ? "try" : "lock"));
            }
            p.push_back(o);
        }
    }
    if (shared) run_lock<detail::shared_spinlock>(r, p, true, n); else run_lock<detail::spinlock>(r, p, false, n);
}

// ---------------------------------------------------------------- read-copy-update
static int next_version = 0;
struct Obj {
    int o, v; mutable vs::Data<int> a, b; bool dead = false;
    Obj(int o_, int v_) : o(o_), v(v_) { a.set(v); b.set(v); }
    explicit Obj(const std::pair<int, int>& x) : Obj(x.first, x.second) {}
    Obj(const Obj&) = delete;
    ~Obj() { tr::ev("free", "t", vs::self ? vs::self->id : -1, "o", o, "v", v, "again", dead); dead = true; a.set(-1); b.set(-1); }
    static std::vector<void*>& graves() { static std::vector<void*> g; return g; }
    static void* operator new(size_t n) { return std::malloc(n); }
    static void operator delete(void* p) { graves().push_back(p); }   // nothing is reused within an execution
};
static void fam_rcu(tr::Rnd& r, const Prog* given, int n)
{
    Prog p; int objs = 1;
    if (given) p = *given;
    else
    {
        objs = r.in(1, 2);
        const int T = r.in(2, 4); bool w = false;
        for (int t = 0; t < T; t++)
        {
            std::vector<std::string> o;
            const bool writer = (t == T - 1 && !w) || r.chance(40); w |= writer;
            for (int k = r.in(1, 2); k > 0; k--)
                if (writer && r.chance(75)) o.push_back(r.chance(80) ? "upd " + std::to_string(r.in(0, objs - 1)) : "sync");
                else { std::string s = "sec"; for (int i = r.in(1, 3); i > 0; i--) s += " " + std::to_string(r.in(0, objs - 1)); o.push_back(s); }
            p.push_back(o);
        }
    }
    executions(r, n, [&]
    {
        next_version = 0;
        {
            std::vector<std::unique_ptr<detail::rcu_obj<Obj>>> ob;
            for (int i = 0; i < objs; i++) { ob.push_back(std::make_unique<detail::rcu_obj<Obj>>(i, 0)); tr::ev("new", "o", i); }
            auto op = [&](int t, const std::string& s)
            {
                const auto w = words(s);
                if (w[0] == "upd")
                {
                    const int o = std::stoi(w[1]), v = ++next_version;
                    tr::ev("upd", "t", t, "o", o, "v", v);
                    *ob[size_t(o)] = std::pair<int, int>{ o, v };
                    tr::ev("updret", "t", t, "o", o, "v", v);
                }
                else if (w[0] == "sync") { tr::ev("sync", "t", t); ob[0]->wait_for_readers(); tr::ev("syncret", "t", t); }
                else
                {
                    tr::ev("want", "t", t);
                    ob[0]->lock_shared();
                    tr::ev("in", "t", t);
                    std::vector<const Obj*> held;
                    for (size_t i = 1; i < w.size(); i++)
                    {
                        const int o = std::stoi(w[i]);
                        const Obj& x = ob[size_t(o)]->get(); held.push_back(&x);
                        const int v = x.v; const bool ok = x.a.get() == v && x.b.get() == v && !x.dead;
                        tr::ev("read", "t", t, "o", o, "v", v, "ok", ok);
                        vs::point();
                    }
                    for (const Obj* x : held) { const bool ok = x->a.get() == x->v && x->b.get() == x->v && !x->dead; tr::ev("again", "t", t, "o", x->o, "v", x->v, "ok", ok); }
                    tr::ev("out", "t", t);
                    ob[0]->unlock_shared();
                }
            };
            {
                std::vector<std::jthread> th;
                for (int t = 0; t < int(p.size()); t++) th.emplace_back([&, t] { for (auto& s : p[size_t(t)]) op(t, s); });
            }
            tr::ev("end");
        }
        for (void* g : Obj::graves()) std::free(g);
        Obj::graves().clear();
    });
}

// ---------------------------------------------------------------- parallel loops
struct Loop { int n = 1, block = 1, child = -1, every = 1; std::vector<int> thr; };   // child: a loop started from the bodies
struct Boom { int l, i; };
static void fam_pool(tr::Rnd& r, bool exceptions, int n)
{
    // steps: a thread count, then loops run by one or more threads at once
    struct Step { int threads; std::vector<std::vector<int>> by; };
    std::vector<Loop> loops; std::vector<Step> steps;
    auto mk = [&](auto&& self, int depth) -> int
    {
        Loop l;
        l.n = r.chance(10) ? 0 : depth ? r.in(1, 3) : r.chance(5) ? r.in(7, 40) : r.in(1, 6);
        if (r.chance(35)) l.block = l.n > 6 ? r.in(1, 20) : r.in(1, 4);
        if (exceptions && r.chance(60)) for (int i = 0; i < l.n; i++) if (r.chance(30)) l.thr.push_back(i);
        if (depth < 2 && r.chance(depth ? 20 : 35)) { l.every = r.in(1, 2); l.child = self(self, depth + 1); }
        loops.push_back(l); return int(loops.size()) - 1;
    };
    for (int k = r.in(1, 2); k > 0; k--)
    {
        Step s; s.threads = r.chance(6) ? 0 : r.in(1, 4);
        for (int c = r.chance(30) ? 2 : 1; c > 0; c--) { std::vector<int> ls; for (int j = r.in(1, 2); j > 0; j--) ls.push_back(mk(mk, 0)); s.by.push_back(ls); }
        steps.push_back(s);
    }
    executions(r, n, [&]
    {
        int ids = 0;
        auto run = [&](auto&& self, int which) -> void
        {
            const Loop& L = loops[size_t(which)];
            const int id = ++ids;
            auto cells = std::make_unique<std::vector<vs::Data<int>>>(size_t(L.n));
            const int t = vs::self->id;
            tr::ev("loop", "t", t, "l", id, "n", L.n);
            auto body = [&](size_t i)
            {
                const int me = vs::self->id;
                tr::ev("beg", "t", me, "l", id, "i", int(i));
                vs::point();
                (*cells)[i].set((*cells)[i].get() + 1);
                if (L.child >= 0 && int(i) % L.every == 0) { try { self(self, L.child); } catch (const Boom&) {} }
                if (std::find(L.thr.begin(), L.thr.end(), int(i)) != L.thr.end()) { tr::ev("thr", "t", me, "l", id, "i", int(i)); throw Boom{ id, int(i) }; }
                tr::ev("end", "t", me, "l", id, "i", int(i));
            };
            int bl = -1, bi = -1; bool caught = false;
            try
            {
                if (L.block == 1) detail::parallel_for(detail::iota_iterator(0_sz), detail::iota_iterator(size_t(L.n)), body);
                else detail::parallel_for(detail::iota_iterator(0_sz), detail::iota_iterator(size_t(L.n)), size_t(L.block), body);
            }
            catch (const Boom& b) { caught = true; bl = b.l; bi = b.i; }
            if (caught) tr::ev("exc", "t", t, "l", id, "el", bl, "i", bi); else tr::ev("ret", "t", t, "l", id);
            int sum = 0;
            for (auto& c : *cells) sum += c.get();
            tr::ev("sum", "t", t, "l", id, "v", sum);
            if (caught && which % 2) throw Boom{ bl, bi };
        };
        for (auto& s : steps)
        {
            execution_threads(size_t(s.threads));
            if (!exceptions) tr::ev("threads", "k", s.threads, "got", int(execution_threads()), "callers", int(s.by.size()));
            if (s.by.size() == 1) { for (int l : s.by[0]) try { run(run, l); } catch (const Boom&) {} }
            else
            {
                std::vector<std::jthread> th;
                for (auto& ls : s.by) th.emplace_back([&] { for (int l : ls) try { run(run, l); } catch (const Boom&) {} });
            }
        }
        execution_threads(1);
    });
}

// ---------------------------------------------------------------- merging pareto sets
static Candidates<RealGene> cands(const std::vector<std::vector<int>>& f, int base)
{
    Candidates<RealGene> r;
    for (size_t i = 0; i < f.size(); i++) { Candidate<RealGene> c(2); c.chromosome[0] = double(base + int(i)); c.chromosome[1] = 0; c.fitness.assign(f[i].begin(), f[i].end()); r.push_back(c); }
    return r;
}
static std::vector<std::vector<int>> front(std::vector<std::vector<int>> f)
{
    auto dom = [](const auto& a, const auto& b) { bool l = false; for (size_t i = 0; i < a.size(); i++) { if (a[i] > b[i]) return false; l |= a[i] < b[i]; } return l; };
    std::vector<std::vector<int>> o;
    for (auto& a : f) { bool d = false; for (auto& b : f) d |= dom(a, b); if (!d) o.push_back(a); }
    return o;
}
static tr::Raw enc(const Candidates<RealGene>& c)
{
    std::vector<std::pair<int, std::vector<int>>> v;
    for (auto& x : c) { std::vector<int> f; for (double y : x.fitness) f.push_back(int(std::lround(y))); v.push_back({ x.chromosome.size() == 2 ? int(std::lround(x.chromosome[0])) : -1, f }); }
    std::string o; tr::put(o, v); return { o };
}
static void fam_merge(tr::Rnd& r, int n)
{
    const int m = r.in(2, 3), T = r.in(2, 4), hi = r.in(1, 4);
    std::vector<std::vector<int>> A, B;
    for (int s = 0; s < 2; s++) { auto& X = s ? B : A; for (int k = r.in(1, 5); k > 0; k--) { std::vector<int> f; for (int i = 0; i < m; i++) f.push_back(r.in(0, hi)); X.push_back(f); } }
    if (r.chance(40)) for (auto& b : B) if (r.chance(50)) { b = r.pick(A); if (r.chance(50)) b[size_t(r.in(0, m - 1))]--; }
    A = front(A); B = front(B);
    executions(r, n, [&]
    {
        execution_threads(size_t(T));
        auto L = cands(A, 1), R = cands(B, 100);
        auto out = detail::mergeParetoSets(L, R);
        tr::ev("merge", "l", enc(L), "r", enc(R), "out", enc(out));
        execution_threads(1);
    });
}

// ---------------------------------------------------------------- random streams
static std::unordered_map<uint64_t, std::pair<int, int>> ref_; // value -> (stream, position)
static constexpr uint64_t SEEDS[2] = { 11, 0x3da99432ab975d26ull };
static void reference()
{
    // what the threads of one execution would draw one after the other
    for (int s = 0; s < 2; s++)
    {
        vs::Strategy none; none.mode = 1; none.stale = 0;
        vs::execute(5, none, [&]
        {
            rng::prng.seed(SEEDS[s]);
            for (int k = 1; k <= 12; k++) { std::jthread t([&, k] { for (int i = 1; i <= 40; i++) ref_.insert({ rng::prng(), { s * 100 + k, i } }); }); }
        });
    }
}
static void fam_rng(tr::Rnd& r, int n)
{
    if (ref_.empty()) reference();
    const int T = r.in(2, 4), rounds = r.in(1, 2);
    std::vector<std::vector<int>> draws; std::vector<int> late;   // late: the thread ends and another one takes its place
    for (int t = 0; t < T; t++) { std::vector<int> d; for (int k = 0; k < rounds; k++) d.push_back(r.in(k ? 0 : 0, 4)); draws.push_back(d); late.push_back(r.chance(30)); }
    executions(r, n, [&]
    {
        auto draw = [&](int t) { tr::ev("call", "t", t); const auto v = rng::prng(); auto it = ref_.find(v); tr::ev("draw", "t", t, "s", it == ref_.end() ? -1 : it->second.first, "p", it == ref_.end() ? -1 : it->second.second); };
        rng::prng.seed(SEEDS[0]); tr::ev("seed", "s", 0);
        // round 0 starts with no thread known to the generator; before later rounds the seed is set again
        std::vector<std::unique_ptr<vs::Data<int>>> gate; 
        std::atomic<int> arrived = 0, round = 0;
        std::vector<std::jthread> th;
        int alive = T;
        for (int t = 0; t < T; t++) th.emplace_back([&, t]
        {
            for (int k = 0; k < rounds; k++)
            {
                while (round.load() < k) vs::pause();
                for (int i = 0; i < draws[size_t(t)][size_t(k)]; i++) draw(t);
                if (k == 0 && late[size_t(t)])
                {
                    std::jthread child([&] { for (int i = 0; i < 2; i++) draw(10 + t); });
                    child.join(); tr::ev("tend", "t", 10 + t);
                }
                arrived.fetch_add(1);
            }
        });
        for (int k = 1; k < rounds; k++)
        {
            while (arrived.load() < alive * k) vs::pause();
            rng::prng.seed(SEEDS[k % 2]); tr::ev("seed", "s", k % 2);
            round.store(k);
        }
    });
}

int main(int argc, char** argv)
{
    int n = 100, ex = 30;
    for (int i = 1; i < argc; i++) { if (!strcmp(argv[i], "--fam")) fam = argv[i + 1]; if (!strcmp(argv[i], "--n")) n = atoi(argv[i + 1]); if (!strcmp(argv[i], "--ex")) ex = atoi(argv[i + 1]); }
    auto a = tr::parse(argc, argv);
    std::vector<std::string> given;
    if (!a.ops.empty()) { given = tr::lines(a.ops); n = int(given.size()); }
    else if (a.thorough) n *= 4;
    if (a.thorough) ex *= 3;
    return tr::run(a, n, [&](long k)
    {
        tr::Rnd r(a.seed * 7919 + uint64_t(k) * 31 + 5);
        Prog p;
        if (!given.empty()) for (auto& t : words(given[size_t(k)], ';')) p.push_back(words(t)); 
        for (auto& t : p) for (auto& o : t) for (auto& c : o) if (c == '_') c = ' ';
        tr::begin(k, tr::obj("fam", fam, "prog", given.empty() ? std::string() : given[size_t(k)]));
        const Prog* g = given.empty() ? nullptr : &p;
        if (fam == "queue") fam_queue(r, g, ex);
        else if (fam == "lock") fam_lock(r, g, ex);
        else if (fam == "rcu") fam_rcu(r, g, ex);
        else if (fam == "pool") fam_pool(r, false, ex);
        else if (fam == "poolx") fam_pool(r, true, ex);
        else if (fam == "merge") fam_merge(r, ex);
        else if (fam == "rng") fam_rng(r, ex);
    });
}
