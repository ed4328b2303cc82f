// Element type that registers every construction and destruction and can throw at the n-th copy.
#pragma once
#include <unordered_map>
#include <unordered_set>
#include <stdexcept>
#include <functional>
namespace trk {
inline std::unordered_set<const void*>& live() { static auto* s = new std::unordered_set<const void*>; return *s; }
inline long bad = 0;              // double construction, use or destruction of something that is not alive
inline long countdown = -1;       // throw when it reaches zero; -1: never
inline long copies = 0;
inline long alloc_countdown = -1; // the same for allocations
struct Boom : std::runtime_error { Boom() : std::runtime_error("boom") {} };
inline void tick() { copies++; if (countdown >= 0 && countdown-- == 0) throw Boom(); }
// a fault of 100 or more is a failure of an allocation, below 100 one of a copy, negative: none
inline void arm(int fault) { countdown = fault < 100 ? fault : -1; alloc_countdown = fault >= 100 ? fault - 100 : -1; }
inline void born(const void* p) { if (!live().insert(p).second) bad++; }
inline void dead(const void* p) { if (!live().erase(p)) bad++; }
inline void used(const void* p) { if (!live().count(p)) bad++; }
// NOTHROW_MOVE: moves never throw; otherwise moving counts as a copy that may throw
template<bool NOTHROW_MOVE> struct Elem {
    int v;
    Elem() { tick(); v = 0; born(this); }
    /* implicit */ Elem(int x) : v(x) { born(this); }
    Elem(const Elem& o) { used(&o); tick(); v = o.v; born(this); }
    Elem(Elem&& o) noexcept(NOTHROW_MOVE) { used(&o); if (!NOTHROW_MOVE) tick(); v = o.v; o.v = -1; born(this); }
    Elem& operator=(const Elem& o) { used(this); used(&o); tick(); v = o.v; return *this; }
    Elem& operator=(Elem&& o) noexcept(NOTHROW_MOVE) { used(this); used(&o); if (!NOTHROW_MOVE) tick(); int x = o.v; o.v = -1; v = x; return *this; }
    ~Elem() { dead(this); v = -99; }
    friend bool operator==(const Elem& a, const Elem& b) { used(&a); used(&b); return a.v == b.v; }
    friend auto operator<=>(const Elem& a, const Elem& b) { return a.v <=> b.v; }
};
template<typename T> int val(const T& x) { if constexpr (requires { x.v; }) { used(&x); return x.v; } else return int(x); }
// Allocator that counts outstanding allocations and checks sizes on deallocation.
inline std::unordered_map<const void*, size_t>& blocks() { static auto* m = new std::unordered_map<const void*, size_t>; return *m; }
template<typename T> struct Alloc {
    using value_type = T; using is_always_equal = std::true_type;
    Alloc() = default; template<typename U> Alloc(const Alloc<U>&) noexcept {}
    T* allocate(size_t n) { if (alloc_countdown >= 0 && alloc_countdown-- == 0) throw Boom(); T* p = static_cast<T*>(::operator new(n * sizeof(T) + 1)); blocks()[p] = n; return p; }
    void deallocate(T* p, size_t n) { auto it = blocks().find(p); if (it == blocks().end() || it->second != n) { bad++; return; } blocks().erase(it); ::operator delete(p); }
    friend bool operator==(const Alloc&, const Alloc&) { return true; }
};
// Allocator with an identity (three of them, taken in turn): what one of them allocated no other may deallocate.
inline int turn = 0;
template<typename T, bool PROPAGATE> struct IdAlloc {
    using value_type = T; using is_always_equal = std::false_type;
    using propagate_on_container_copy_assignment = std::bool_constant<PROPAGATE>; using propagate_on_container_move_assignment = std::bool_constant<PROPAGATE>; using propagate_on_container_swap = std::bool_constant<PROPAGATE>;
    template<typename U> struct rebind { using other = IdAlloc<U, PROPAGATE>; };
    int id = turn++ % 3;
    IdAlloc() = default; template<typename U> IdAlloc(const IdAlloc<U, PROPAGATE>& o) noexcept : id(o.id) {}
    static std::unordered_map<const void*, int>& owner() { static auto* m = new std::unordered_map<const void*, int>; return *m; }
    T* allocate(size_t n) { T* p = Alloc<T>().allocate(n); owner()[p] = id; return p; }
    void deallocate(T* p, size_t n) { if (owner()[p] != id) bad++; Alloc<T>().deallocate(p, n); }
    friend bool operator==(const IdAlloc& a, const IdAlloc& b) { return a.id == b.id; }
};
inline void reset() { turn = 0; live().clear(); blocks().clear(); bad = 0; arm(-1); copies = 0; }
}
