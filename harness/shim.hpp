// Force-included before every file of the controlled-concurrency build: replaces the synchronisation types that the library
// takes from the standard library by ones that run under a deterministic scheduler.
//   * One virtual thread runs at a time; every operation on a shared object is a possible switch point.
//   * Atomic loads may return older values where the C++ memory model allows it (release/acquire clocks, coherence, seq_cst fences).
//   * Data<T> and the replaced containers detect accesses that are not ordered by happens-before.
#pragma once
#define VS_SHIM
#include <bits/stdc++.h>
#include <unistd.h>
#include "trace.hpp"

namespace vs {
constexpr int MAXT = 24;
struct VC {
    uint32_t c[MAXT] = {};
    void join(const VC& o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; }
    bool leq(const VC& o) const { for (int i = 0; i < MAXT; i++) if (c[i] > o.c[i]) return false; return true; }
};
struct Rec { uint64_t v; VC rel; int tid; uint32_t ts; };
struct Loc {                                            // one atomic location: its modification order
    std::vector<Rec> h; uint64_t base = 0;              // h[i] is store number base + i
    uint64_t seen[MAXT] = {}, sc = 0;
    uint64_t last() const { return base + h.size() - 1; }
    Rec& at(uint64_t i) { return h[size_t(i - base)]; }
};
enum St { RUN, BLOCK, SPIN, DONE };
struct Th {
    int id = 0; std::binary_semaphore sem{ 0 }; St st = RUN; const void* on = nullptr; uint64_t own = 0, own0 = 0, mark = 0; int idle = 0; bool stale = false;
    VC vc, acq, relf; bool force = false; uint32_t run = 0; uint64_t prio = 0; std::thread real; VC end; bool joined = false;
};
struct Strategy { int mode = 0, sw = 30, stale = 30, spurious = 0, changes = 0; };
struct Sched {
    std::vector<std::unique_ptr<Th>> th; int cur = -1; bool active = false; uint64_t exec = 0;
    tr::Rnd rnd{ 1 }; Strategy str; uint64_t steps = 0, writes = 0, limit = 60000, est = 300; std::vector<uint64_t> change; std::vector<int> en;
    std::deque<Loc> locs; std::unordered_map<const void*, Loc*> refs;
    std::binary_semaphore finished{ 0 }; int races = 0; unsigned hw = 1; bool rescue = false; int rescuer = -1;
};
inline Sched& S() { static Sched* s = new Sched; return *s; }
inline thread_local Th* self = nullptr;
inline bool on() { return self && S().active; }
inline void finish();
// the last thing a thread does, after the destructors of its thread local objects
inline pthread_key_t exit_key() { static pthread_key_t k = [] { pthread_key_t x; pthread_key_create(&x, [](void*) { finish(); }); return x; }(); return k; }

[[noreturn]] inline void stuck(const char* why) { tr::switch_point = nullptr; tr::ev(why); tr::die("hang", 0); _exit(97); }
// the threads that may run now
inline void enabled(std::vector<int>& r)
{
    Sched& s = S(); r.clear();
    for (auto& t : s.th) if (t->st == RUN || (t->st == SPIN && t->mark != s.writes - t->own)) r.push_back(t->id);
}
inline int choose(bool forced_off)                      // forced_off: the current thread must not be chosen if another can run
{
    Sched& s = S();
    std::vector<int>& en = s.en; enabled(en);
    if (en.empty())
    {
        // only spinning threads that have seen everything: nobody can make progress
        if (s.rescuer >= 0 && !s.rescue) { s.rescue = true; s.th[size_t(s.rescuer)]->st = RUN; return s.rescuer; }
        stuck("stuck");
    }
    const bool cur_ok = !forced_off && std::find(en.begin(), en.end(), s.cur) != en.end();
    if (s.str.mode == 0)
    {
        if (cur_ok && !s.rnd.chance(s.str.sw)) return s.cur;
        return s.rnd.pick(en);
    }
    if (std::find(s.change.begin(), s.change.end(), s.steps) != s.change.end() && s.cur >= 0) s.th[size_t(s.cur)]->prio = s.rnd.next() % 1000;   // lower than all initial ones
    if (forced_off && en.size() > 1 && s.cur >= 0 && s.rnd.chance(50)) return s.rnd.pick(en);
    int b = -1;
    for (int i : en) if (b < 0 || s.th[size_t(i)]->prio > s.th[size_t(b)]->prio) b = i;
    if (forced_off && b == s.cur) { s.th[size_t(b)]->prio = s.rnd.next() % 1000; b = s.rnd.pick(en); }
    return b;
}
inline void go(int next)
{
    Sched& s = S();
    Th* me = self;
    if (next == me->id) return;
    me->run = 0;
    s.cur = next;
    s.th[size_t(next)]->sem.release();
    me->sem.acquire();
}
inline void point()
{
    Sched& s = S();
    if (++s.steps > s.limit) stuck("livelock");
    const bool unfair = ++self->run > 300;               // a thread that never pauses must not keep the others from running
    if (unfair) self->run = 0;
    const int n = choose(unfair);
    if (s.th[size_t(n)]->st == SPIN) s.th[size_t(n)]->st = RUN;
    go(n);
}
inline void wait_on(const void* o)                      // blocks until somebody wakes this object
{
    Sched& s = S();
    if (++s.steps > s.limit) stuck("livelock");
    self->st = BLOCK; self->on = o;
    const int n = choose(true);
    if (s.th[size_t(n)]->st == SPIN) s.th[size_t(n)]->st = RUN;
    if (n == self->id) { self->st = RUN; return; }
    go(n);
}
inline void wake(const void* o) { for (auto& t : S().th) if (t->st == BLOCK && t->on == o) { t->st = RUN; t->on = nullptr; } S().writes++; if (self) self->own++; }
// One iteration of a waiting loop is over.  The thread only runs again after another thread has changed something,
// unless something changed, or was not yet visible, during the iteration.
inline void pause()
{
    if (!on()) { std::this_thread::yield(); return; }
    Sched& s = S();
    Th* me = self;
    if (++s.steps > s.limit) stuck("livelock");
    const bool news = me->stale || me->mark != s.writes - me->own || me->own0 != me->own;
    me->idle = news ? 0 : me->idle + 1; me->own0 = me->own; me->stale = false;
    if (me->idle > 20) me->st = SPIN;                    // certainly waiting and not just polite
    me->force = true;                                    // an unfair stale read forever is not a behaviour of any machine
    const int n = choose(true);
    s.th[size_t(n)]->st = RUN;
    go(n);
    me->st = RUN;
    me->mark = s.writes - me->own;
}
inline void race(const char* what) { if (S().races++ < 3) tr::ev("race", "what", what); }

// ---- threads
inline void finish()
{
    Sched& s = S();
    Th* me = self;
    me->end = me->vc; me->st = DONE;
    wake(me);
    bool all = true; for (auto& t : s.th) if (t->st != DONE) all = false;
    if (all) { s.active = false; self = nullptr; s.finished.release(); return; }
    const int n = choose(true);
    if (s.th[size_t(n)]->st == SPIN) s.th[size_t(n)]->st = RUN;
    s.cur = n;
    self = nullptr;
    s.th[size_t(n)]->sem.release();
}
inline int spawn(std::function<void()> f, bool rescuer = false)
{
    Sched& s = S();
    auto t = std::make_unique<Th>();
    Th* p = t.get();
    p->id = int(s.th.size());
    if (p->id >= MAXT) { tr::ev("toomany"); tr::die("hang", 0); }
    p->prio = 1000 + s.rnd.next() % 1000000;
    if (self) { p->vc = self->vc; self->vc.c[self->id]++; }
    p->vc.c[p->id] = 1;
    if (rescuer) { p->st = BLOCK; s.rescuer = p->id; }
    s.th.push_back(std::move(t));
    p->real = std::thread([p, f = std::move(f)]() mutable
    {
        pthread_setspecific(exit_key(), p);
        p->sem.acquire();
        self = p;
        f();
        f = nullptr;
    });
    return p->id;
}
inline void join(int id)
{
    Sched& s = S();
    Th* t = s.th[size_t(id)].get();
    point();
    while (t->st != DONE) wait_on(t);
    self->vc.join(t->end);
}
// Runs one execution: body is the first thread.
inline void execute(uint64_t seed, const Strategy& str, const std::function<void()>& body)
{
    Sched& s = S();
    s.th.clear(); s.locs.clear(); s.refs.clear(); s.cur = -1; s.exec++; s.rnd = tr::Rnd(seed); s.str = str; s.steps = s.writes = 0; s.races = 0; s.rescue = false; s.rescuer = -1;
    s.change.clear();
    for (int i = 0; i < str.changes; i++) s.change.push_back(s.rnd.next() % (s.est + 1));
    spawn(body);
    s.active = true;
    s.cur = 0;
    s.th[0]->sem.release();
    s.finished.acquire();
    for (auto& t : s.th) t->real.join();
    s.est = (s.est * 3 + s.steps) / 4 + 1;
}
inline Strategy strategy(tr::Rnd& r)
{
    Strategy t;
    t.mode = r.in(0, 2) == 0 ? 0 : 1;
    const int sws[] = { 4, 10, 25, 50 }; t.sw = sws[r.in(0, 3)];
    t.changes = r.in(0, 4);
    const int st[] = { 0, 15, 40, 70 }; t.stale = st[r.in(0, 3)];
    t.spurious = r.chance(30) ? 10 : 0;
    return t;
}

// A scenario of another harness as one execution; every event is a possible switch point.
inline void scenario(uint64_t seed, const std::function<void()>& body)
{
    tr::Rnd r(seed);
    tr::switch_point = [] { if (on()) point(); };
    S().limit = 20000000; S().est = 4000;
    const Strategy t = strategy(r);
    execute(r.next(), t, body);
}

// ---- memory
inline uint64_t floor_of(Loc& l)                        // the oldest store this thread may still read
{
    uint64_t f = std::max(l.seen[self->id], l.base);
    for (uint64_t i = l.last(); i > f; i--) { Rec& r = l.at(i); if (r.tid < 0 || r.ts <= self->vc.c[r.tid]) { f = i; break; } }
    return f;
}
inline bool acq(std::memory_order o) { return o == std::memory_order_acquire || o == std::memory_order_consume || o == std::memory_order_acq_rel || o == std::memory_order_seq_cst; }
inline bool rel(std::memory_order o) { return o == std::memory_order_release || o == std::memory_order_acq_rel || o == std::memory_order_seq_cst; }
inline uint64_t load(Loc& l, std::memory_order o)
{
    Sched& s = S();
    uint64_t f = floor_of(l), i = l.last();
    if (o == std::memory_order_seq_cst) f = std::max(f, l.sc);
    if (!self->force && f < i && s.rnd.chance(s.str.stale)) { const uint64_t n = l.last(); i = f + s.rnd.next() % (i - f + 1); if (i != n) self->stale = true; }
    self->force = false;
    l.seen[self->id] = i;
    if (o == std::memory_order_seq_cst) l.sc = std::max(l.sc, i);
    Rec& r = l.at(i);
    if (acq(o)) self->vc.join(r.rel); else self->acq.join(r.rel);
    return r.v;
}
inline void store(Loc& l, uint64_t v, std::memory_order o, bool rmw = false)
{
    Sched& s = S();
    Rec r; r.v = v; r.tid = self->id; r.ts = ++self->vc.c[self->id];
    r.rel = rel(o) ? self->vc : self->relf;
    if (rmw) r.rel.join(l.h.back().rel);                 // continues the release sequences
    l.h.push_back(r);
    self->vc.c[self->id]++;                              // what follows is not published by this store
    if (l.h.size() > 24) { l.h.erase(l.h.begin()); l.base++; }
    l.seen[self->id] = l.last();
    if (o == std::memory_order_seq_cst) l.sc = l.last();
    s.writes++; self->own++;
}
inline uint64_t rmw_read(Loc& l, std::memory_order o)
{
    Rec& r = l.h.back();
    l.seen[self->id] = l.last(); self->force = false;
    if (acq(o)) self->vc.join(r.rel); else self->acq.join(r.rel);
    return r.v;
}
inline void fence(std::memory_order o)
{
    if (!on()) return;
    point();
    Sched& s = S();
    if (acq(o)) self->vc.join(self->acq);
    if (o == std::memory_order_seq_cst)
        for (Loc& l : s.locs) { l.sc = std::max(l.sc, floor_of(l)); l.seen[self->id] = l.sc; }
    if (rel(o)) { self->relf = self->vc; self->vc.c[self->id]++; }
}
template<typename T> uint64_t enc(T v) { uint64_t r = 0; std::memcpy(&r, &v, sizeof(T)); return r; }
template<typename T> std::remove_const_t<T> dec(uint64_t r) { std::remove_const_t<T> v; std::memcpy(&v, &r, sizeof(T)); return v; }
inline Loc* make(uint64_t v) { Sched& s = S(); s.locs.emplace_back(); Rec r; r.v = v; r.tid = -1; r.ts = 0; s.locs.back().h.push_back(r); return &s.locs.back(); }

template<typename T, typename D> struct AtomicOps {      // D::slot() gives the location, D::cell() the plain memory
    T load(std::memory_order o = std::memory_order_seq_cst) const noexcept { auto& d = dd(); if (!on()) return d.cell(); point(); return dec<T>(vs::load(*d.slot(), o)); }
    void store(T v, std::memory_order o = std::memory_order_seq_cst) const noexcept { auto& d = dd(); if (!on()) { d.cell() = v; return; } point(); vs::store(*d.slot(), enc(v), o); d.cell() = v; }
    template<typename F> T rmw(F f, std::memory_order o) const noexcept
    {
        auto& d = dd();
        if (!on()) { T old = d.cell(); d.cell() = f(old); return old; }
        point(); Loc& l = *d.slot(); T old = dec<T>(rmw_read(l, o)); T nw = f(old); vs::store(l, enc(nw), o, true); d.cell() = nw; return old;
    }
    T exchange(T v, std::memory_order o = std::memory_order_seq_cst) const noexcept { return rmw([&](T) { return v; }, o); }
    T fetch_add(auto v, std::memory_order o = std::memory_order_seq_cst) const noexcept { return rmw([&](T x) { return T(x + v); }, o); }
    T fetch_sub(auto v, std::memory_order o = std::memory_order_seq_cst) const noexcept { return rmw([&](T x) { return T(x - v); }, o); }
    T fetch_or(T v, std::memory_order o = std::memory_order_seq_cst) const noexcept { return rmw([&](T x) { return T(x | v); }, o); }
    T fetch_and(T v, std::memory_order o = std::memory_order_seq_cst) const noexcept { return rmw([&](T x) { return T(x & v); }, o); }
    T fetch_xor(T v, std::memory_order o = std::memory_order_seq_cst) const noexcept { return rmw([&](T x) { return T(x ^ v); }, o); }
    bool cas(T& e, T v, std::memory_order so, std::memory_order fo) const noexcept
    {
        auto& d = dd();
        if (!on()) { if (d.cell() == e) { d.cell() = v; return true; } e = d.cell(); return false; }
        point(); Loc& l = *d.slot(); T cur = dec<T>(l.h.back().v);
        if (std::memcmp(&cur, &e, sizeof(T)) == 0) { rmw_read(l, so); vs::store(l, enc(v), so, true); d.cell() = v; return true; }
        rmw_read(l, fo); e = cur; return false;
    }
    static std::memory_order fail(std::memory_order o) { return o == std::memory_order_acq_rel ? std::memory_order_acquire : o == std::memory_order_release ? std::memory_order_relaxed : o; }
    bool compare_exchange_strong(T& e, T v, std::memory_order o = std::memory_order_seq_cst) const noexcept { return cas(e, v, o, fail(o)); }
    bool compare_exchange_strong(T& e, T v, std::memory_order so, std::memory_order fo) const noexcept { return cas(e, v, so, fo); }
    bool compare_exchange_weak(T& e, T v, std::memory_order o = std::memory_order_seq_cst) const noexcept { return weak(e, v, o, fail(o)); }
    bool compare_exchange_weak(T& e, T v, std::memory_order so, std::memory_order fo) const noexcept { return weak(e, v, so, fo); }
    bool weak(T& e, T v, std::memory_order so, std::memory_order fo) const noexcept { if (on() && S().rnd.chance(S().str.spurious)) { T x = load(fo); if (x != e) e = x; return false; } return cas(e, v, so, fo); }
    operator T() const noexcept { return load(); }
    void wait(T old, std::memory_order o = std::memory_order_seq_cst) const noexcept { while (load(o) == old) { if (!on()) std::this_thread::yield(); else pause(); } }
    void notify_one() const noexcept { if (on()) { S().writes++; vs::self->own++; } }
    void notify_all() const noexcept { if (on()) { S().writes++; vs::self->own++; } }
    T operator++() const noexcept { return T(fetch_add(1) + 1); }
    T operator++(int) const noexcept { return fetch_add(1); }
    T operator--() const noexcept { return T(fetch_sub(1) - 1); }
    T operator--(int) const noexcept { return fetch_sub(1); }
    T operator+=(auto v) const noexcept { return T(fetch_add(v) + v); }
    T operator-=(auto v) const noexcept { return T(fetch_sub(v) - v); }
    const D& dd() const { return static_cast<const D&>(*this); }
    static constexpr bool is_always_lock_free = true;
    bool is_lock_free() const noexcept { return true; }
};
// Memory that is not atomic: accesses have to be ordered by happens-before.
struct Shadow {
    uint64_t exec = 0; VC rd; int wt = -1; uint32_t wts = 0;
    void fresh() { if (exec != S().exec) { exec = S().exec; rd = {}; wt = -1; wts = 0; } }
    void read(const char* w) { if (!on()) return; fresh(); if (wt >= 0 && wts > self->vc.c[wt]) race(w); rd.c[self->id] = std::max(rd.c[self->id], self->vc.c[self->id]); }
    void write(const char* w)
    {
        if (!on()) return;
        fresh();
        if ((wt >= 0 && wts > self->vc.c[wt]) || !rd.leq(self->vc)) race(w);
        wt = self->id; wts = ++self->vc.c[self->id]; rd = {};
    }
};
template<typename T> struct Data {
    T v{}; mutable Shadow s;
    T get() const { if (on()) point(); s.read("data"); return v; }
    void set(T x) { if (on()) point(); s.write("data"); v = x; }
};
} // namespace vs

namespace std {
template<typename T> class vp_atomic : public vs::AtomicOps<T, vp_atomic<T>> {
    mutable T v_{}; mutable vs::Loc* l_ = nullptr; mutable uint64_t e_ = 0; 
public:
    constexpr vp_atomic() noexcept = default;
    constexpr vp_atomic(T v) noexcept : v_(v) {}
    vp_atomic(const vp_atomic&) = delete; vp_atomic& operator=(const vp_atomic&) = delete;
    T operator=(T v) noexcept { this->store(v); return v; }
    T& cell() const { return v_; }
    vs::Loc* slot() const { if (e_ != vs::S().exec || !l_) { l_ = vs::make(vs::enc(v_)); e_ = vs::S().exec; } return l_; }
    using value_type = T;
};
template<typename T> class vp_atomic_ref : public vs::AtomicOps<T, vp_atomic_ref<T>> {
    T* p_;
public:
    explicit vp_atomic_ref(T& v) noexcept : p_(&v) {}
    vp_atomic_ref(const vp_atomic_ref&) = default;
    T operator=(T v) const noexcept { this->store(v); return v; }
    T& cell() const { return *p_; }
    vs::Loc* slot() const { auto& r = vs::S().refs[p_]; if (!r || vs::dec<T>(r->h.back().v) != *p_) r = vs::make(vs::enc(*p_)); return r; }
    using value_type = T; static constexpr size_t required_alignment = alignof(T);
};
template<typename T> vp_atomic_ref(T&) -> vp_atomic_ref<T>;
class vp_atomic_flag {
    vp_atomic<bool> b_;
public:
    constexpr vp_atomic_flag() noexcept = default;
    bool test_and_set(memory_order o = memory_order_seq_cst) noexcept { return b_.exchange(true, o); }
    bool test(memory_order o = memory_order_seq_cst) const noexcept { return b_.load(o); }
    void clear(memory_order o = memory_order_seq_cst) noexcept { b_.store(false, o); }
    void wait(bool v, memory_order o = memory_order_seq_cst) const noexcept { b_.wait(v, o); }
    void notify_one() noexcept { b_.notify_one(); } void notify_all() noexcept { b_.notify_all(); }
};
inline void vp_atomic_thread_fence(memory_order o) noexcept { vs::fence(o); }
class vp_mutex {
    int owner_ = -1; vs::VC vc_; uint64_t exec_ = 0;
    void fresh() { if (exec_ != vs::S().exec) { exec_ = vs::S().exec; owner_ = -1; vc_ = {}; } }
public:
    constexpr vp_mutex() noexcept = default;
    vp_mutex(const vp_mutex&) = delete;
    void lock() { if (!vs::on()) return; fresh(); vs::point(); while (owner_ != -1) vs::wait_on(this); owner_ = vs::self->id; vs::self->vc.join(vc_); }
    bool try_lock() { if (!vs::on()) return true; fresh(); vs::point(); if (owner_ != -1) return false; owner_ = vs::self->id; vs::self->vc.join(vc_); return true; }
    void unlock() { if (!vs::on()) return; fresh(); vs::point(); if (owner_ != vs::self->id) vs::race("unlock"); vc_ = vs::self->vc; vs::self->vc.c[vs::self->id]++; owner_ = -1; vs::wake(this); }
};
class vp_condition_variable {
    vector<vs::Th*> w_; uint64_t exec_ = 0;
    void fresh() { if (exec_ != vs::S().exec) { exec_ = vs::S().exec; w_.clear(); } }
public:
    void wait(unique_lock<vp_mutex>& l)
    {
        if (!vs::on()) return;
        fresh();
        vs::Th* me = vs::self;
        w_.push_back(me);
        l.unlock();                                      // a notification between the unlock and the wait is not lost: the thread is registered already
        if (vs::S().rnd.chance(vs::S().str.spurious)) std::erase(w_, me);
        while (std::find(w_.begin(), w_.end(), me) != w_.end()) vs::wait_on(this);
        l.lock();
    }
    template<typename P> void wait(unique_lock<vp_mutex>& l, P p) { while (!p()) wait(l); }
    void notify_one() noexcept { if (!vs::on()) return; fresh(); vs::point(); if (!w_.empty()) { w_.erase(w_.begin() + long(vs::S().rnd.next() % w_.size())); vs::wake(this); } }
    void notify_all() noexcept { if (!vs::on()) return; fresh(); vs::point(); w_.clear(); vs::wake(this); }
};
using vp_condition_variable_any = vp_condition_variable;
class vp_jthread {
    int id_ = -1;
public:
    struct id { int i = -1; friend bool operator==(id, id) = default; friend auto operator<=>(id, id) = default; };
    vp_jthread() noexcept = default;
    template<typename F, typename... A> explicit vp_jthread(F&& f, A&&... a)
    {
        auto t = std::make_shared<std::tuple<std::decay_t<F>, std::decay_t<A>...>>(std::forward<F>(f), std::forward<A>(a)...);
        id_ = vs::spawn([t]() mutable { auto k = std::move(t); std::apply([](auto& g, auto&... x) { std::invoke(g, std::move(x)...); }, *k); });
        vs::point();
    }
    vp_jthread(vp_jthread&& o) noexcept : id_(std::exchange(o.id_, -1)) {}
    vp_jthread& operator=(vp_jthread&& o) noexcept { if (joinable()) join(); id_ = std::exchange(o.id_, -1); return *this; }
    ~vp_jthread() { if (joinable()) join(); }
    bool joinable() const noexcept { return id_ >= 0; }
    void join() { if (vs::on()) vs::join(id_); id_ = -1; }
    void detach() { id_ = -1; }
    bool request_stop() noexcept { return false; }
    id get_id() const noexcept { return { id_ }; }
    static unsigned hardware_concurrency() noexcept { return vs::S().hw; }
};
using vp_thread = vp_jthread;
namespace vp_this_thread {
    inline void yield() noexcept { vs::pause(); }
    inline vp_jthread::id get_id() noexcept { return { vs::self ? vs::self->id : -2 }; }
    template<typename D> void sleep_for(const D&) { vs::pause(); }
}
// Containers whose unordered accesses are noticed.
template<typename T> class vp_deque {
    std::deque<T> d_; mutable vs::Shadow s_;
    void pt() const { if (vs::on()) vs::point(); }
public:
    template<typename... A> decltype(auto) emplace_back(A&&... a) { pt(); s_.write("queue"); return d_.emplace_back(std::forward<A>(a)...); }
    template<typename... A> decltype(auto) emplace_front(A&&... a) { pt(); s_.write("queue"); return d_.emplace_front(std::forward<A>(a)...); }
    void push_back(T x) { emplace_back(std::move(x)); }
    void push_front(T x) { emplace_front(std::move(x)); }
    void pop_front() { s_.write("queue"); d_.pop_front(); }
    void pop_back() { s_.write("queue"); d_.pop_back(); }
    T& front() { s_.read("queue"); return d_.front(); }
    T& back() { s_.read("queue"); return d_.back(); }
    bool empty() const { pt(); s_.read("queue"); return d_.empty(); }
    size_t size() const { pt(); s_.read("queue"); return d_.size(); }
    void clear() { pt(); s_.write("queue"); d_.clear(); }
    auto begin() { s_.read("queue"); return d_.begin(); }
    auto end() { s_.read("queue"); return d_.end(); }
    T& operator[](size_t i) { s_.read("queue"); return d_[i]; }
};
class vp_shared_mutex {
    int w_ = -1, r_ = 0; vs::VC vc_, rv_; uint64_t exec_ = 0;
    void fresh() { if (exec_ != vs::S().exec) { exec_ = vs::S().exec; w_ = -1; r_ = 0; vc_ = rv_ = {}; } }
public:
    void lock() { if (!vs::on()) return; fresh(); vs::point(); while (w_ != -1 || r_) vs::wait_on(this); w_ = vs::self->id; vs::self->vc.join(vc_); vs::self->vc.join(rv_); }
    bool try_lock() { if (!vs::on()) return true; fresh(); vs::point(); if (w_ != -1 || r_) return false; w_ = vs::self->id; vs::self->vc.join(vc_); vs::self->vc.join(rv_); return true; }
    void unlock() { if (!vs::on()) return; fresh(); vs::point(); vc_ = vs::self->vc; vs::self->vc.c[vs::self->id]++; w_ = -1; vs::wake(this); }
    void lock_shared() { if (!vs::on()) return; fresh(); vs::point(); while (w_ != -1) vs::wait_on(this); r_++; vs::self->vc.join(vc_); }
    bool try_lock_shared() { if (!vs::on()) return true; fresh(); vs::point(); if (w_ != -1) return false; r_++; vs::self->vc.join(vc_); return true; }
    void unlock_shared() { if (!vs::on()) return; fresh(); vs::point(); rv_.join(vs::self->vc); vs::self->vc.c[vs::self->id]++; r_--; vs::wake(this); }
};
template<typename T> class vp_vector : public std::vector<T> {
    mutable vs::Shadow s_;
    void pt() const { if (vs::on()) vs::point(); }
public:
    using std::vector<T>::vector;
    void push_back(const T& x) { pt(); s_.write("list"); std::vector<T>::push_back(x); }
    void push_back(T&& x) { pt(); s_.write("list"); std::vector<T>::push_back(std::move(x)); }
    template<typename... A> decltype(auto) emplace_back(A&&... a) { pt(); s_.write("list"); return std::vector<T>::emplace_back(std::forward<A>(a)...); }
    auto begin() const { pt(); s_.read("list"); return std::vector<T>::begin(); }
    auto begin() { pt(); s_.read("list"); return std::vector<T>::begin(); }
    size_t size() const { pt(); s_.read("list"); return std::vector<T>::size(); }
    template<typename... A> auto erase(A... a) { pt(); s_.write("list"); return std::vector<T>::erase(a...); }
    size_t drop(const auto& v) { pt(); s_.write("list"); return std::erase(static_cast<std::vector<T>&>(*this), v); }
};
template<typename T, typename U> size_t erase(vp_vector<T>& v, const U& x) { return v.drop(x); }
template<typename I> constexpr I vp_rotl(I x, int n) noexcept { if (!std::is_constant_evaluated() && vs::on()) vs::point(); return std::rotl(x, n); }
} // namespace std

#define atomic vp_atomic
#define atomic_ref vp_atomic_ref
#define atomic_flag vp_atomic_flag
#define atomic_thread_fence vp_atomic_thread_fence
#define mutex vp_mutex
#define shared_mutex vp_shared_mutex
#define condition_variable vp_condition_variable
#define condition_variable_any vp_condition_variable
#define jthread vp_jthread
#define thread vp_jthread
#define this_thread vp_this_thread
#define deque vp_deque
#if __has_include("utility/utility.hpp")
#   include "utility/utility.hpp"
#   undef GAPP_PAUSE
#   define GAPP_PAUSE() vs::pause()
#endif
#if !defined(VS_PLAIN_LISTS) && __has_include("utility/rng.hpp") && __has_include("utility/rcu.hpp")
#   include "utility/algorithm.hpp"
#   include "utility/distribution.hpp"
#   include "utility/small_vector.hpp"
#   include "utility/dynamic_bitset.hpp"
#   include "utility/shared_spinlock.hpp"
#   include "utility/spinlock.hpp"
#   include "utility/bit.hpp"
#   define vector vp_vector
#   define rotl vp_rotl
#   include "utility/rcu.hpp"
#   include "utility/rng.hpp"
#   undef vector
#   undef rotl
#endif
