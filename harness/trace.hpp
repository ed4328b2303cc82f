// Trace writer and scenario runner shared by all harnesses.
// One line per scenario: {"id":k,"cfg":{...},"ev":[{...},...]}.  A crash, failed assertion, escaped exception
// or hang of the code under test ends the line with a {"op":"crash"|"hang"} event and the process; the driver
// restarts it at the next scenario.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <string>
#include <vector>
#include <functional>
#include <type_traits>
#include <atomic>
#include <mutex>
#include <unistd.h>
#include <fcntl.h>
#include <sys/time.h>
#include <execinfo.h>

namespace tr {

struct Raw { std::string s; };                       // already encoded JSON

inline void put(std::string& o, bool b) { o += b ? "true" : "false"; }
template<typename T> requires (std::is_integral_v<T> && !std::is_same_v<T, bool>)
inline void put(std::string& o, T v) { o += std::to_string(v); }
inline void put(std::string& o, const char* s)
{
    o += '"';
    for (; *s; ++s) { if (*s == '"' || *s == '\\') o += '\\'; if ((unsigned char)*s < 32) o += ' '; else o += *s; }
    o += '"';
}
inline void put(std::string& o, const std::string& s) { put(o, s.c_str()); }
inline void put(std::string& o, const Raw& r) { o += r.s; }
template<typename A, typename B> inline void put(std::string& o, const std::pair<A, B>& p);
template<typename R> requires requires(const R& r) { r.begin(); r.end(); r.size(); } && (!std::is_convertible_v<R, std::string>)
inline void put(std::string& o, const R& r)
{
    o += '[';
    bool first = true;
    for (const auto& e : r) { if (!first) o += ','; first = false; put(o, e); }
    o += ']';
}
template<typename A, typename B> inline void put(std::string& o, const std::pair<A, B>& p)
{
    o += '['; put(o, p.first); o += ','; put(o, p.second); o += ']';
}

inline void kvs(std::string&) {}
template<typename V, typename... R> void kvs(std::string& o, const char* k, const V& v, const R&... r)
{
    if (o.back() != '{') o += ',';
    put(o, k); o += ':'; put(o, v); kvs(o, r...);
}
template<typename... A> Raw obj(const A&... a) { std::string o = "{"; kvs(o, a...); o += '}'; return { o }; }

struct State {
    std::string buf;          // current scenario line (without the closing brackets)
    bool open = false, any = false;
    int fd = 1;
    std::atomic_flag lock = ATOMIC_FLAG_INIT;
    volatile sig_atomic_t dying = 0;
    std::string pending;
    int timeout = 20;
    size_t events = 0, max_events = 4000000;
};
inline State& st() { static State* s = new State; return *s; }

inline void wr(const std::string& s)
{
    size_t off = 0;
    while (off < s.size()) { ssize_t n = ::write(st().fd, s.data() + off, s.size() - off); if (n <= 0) _exit(99); off += size_t(n); }
}
inline void die(const char* op, int sig)
{
    State& s = st();
    if (s.dying) _exit(98);
    s.dying = 1;
    if (s.open)
    {
        std::string o = s.buf;
        if (s.any) o += ',';
        o += std::string("{\"op\":\"") + op + "\",\"sig\":" + std::to_string(sig) + "}]}\n";
        wr(o);
    }
    _exit(97);
}
inline void on_signal(int sig) { die(sig == SIGALRM ? "hang" : "crash", sig); }

inline void begin(long id, const Raw& cfg)
{
    State& s = st();
    s.buf = "{\"id\":" + std::to_string(id) + ",\"cfg\":" + cfg.s + ",\"ev\":[";
    s.open = true; s.any = false; s.events = 0;
    alarm(unsigned(s.timeout));
}
inline void (*switch_point)() = nullptr;              // set by harnesses that run under a scheduler
// Appends one event. Thread safe; the order of events is the order of the calls.
template<typename... A> void ev(const char* op, const A&... a)
{
    std::string o = "{\"op\":"; put(o, op); kvs(o, a...); o += '}';
    if (switch_point) switch_point();
    State& s = st();
    while (s.lock.test_and_set(std::memory_order_acquire)) {}
    if (s.any) s.buf += ',';
    s.any = true;
    s.buf += o;
    s.events++;
    s.lock.clear(std::memory_order_release);
}
inline void end()
{
    State& s = st();
    alarm(0);
    s.open = false;
    s.buf += "]}\n";
    wr(s.buf);
    s.buf.clear();
}

// Small deterministic generator for scenario parameters (independent of the code under test).
struct Rnd {
    uint64_t s;
    explicit Rnd(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    int in(int lo, int hi) { return lo + int(next() % uint64_t(hi - lo + 1)); }
    bool chance(int pct) { return in(0, 99) < pct; }
    template<typename V> auto& pick(V& v) { return v[size_t(next() % v.size())]; }
};

// Scenarios are numbered 0..n-1.  usage: prog --seed S --tier quick|thorough [--count] [--run A B] [--ops FILE] [--out FILE]
struct Args { uint64_t seed = 1; bool thorough = false; long a = 0, b = -1; bool count = false; std::string ops, out; };
inline Args parse(int argc, char** argv)
{
    Args r;
    for (int i = 1; i < argc; i++)
    {
        std::string k = argv[i];
        if (k == "--seed") r.seed = strtoull(argv[++i], 0, 10);
        else if (k == "--tier") r.thorough = std::string(argv[++i]) == "thorough";
        else if (k == "--count") r.count = true;
        else if (k == "--run") { r.a = atol(argv[++i]); r.b = atol(argv[++i]); }
        else if (k == "--ops") r.ops = argv[++i];
        else if (k == "--out") r.out = argv[++i];
    }
    return r;
}
inline int run(const Args& args, long n, const std::function<void(long)>& scenario)
{
    if (args.count) { printf("%ld\n", n); return 0; }
    if (!args.out.empty()) { st().fd = ::open(args.out.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644); if (st().fd < 0) return 99; }
    for (int s : { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM }) signal(s, on_signal);
    std::set_terminate([] { die("terminate", 0); });
    if (const char* t = getenv("VP_TIMEOUT")) st().timeout = atoi(t);
    const long b = args.b < 0 ? n : std::min(args.b, n);
    for (long k = args.a; k < b; k++) { scenario(k); if (st().open) end(); }
    // a normal process exit (static destructors) is part of what is observed
    return 0;
}

// Reads a file of lines; each line holds whitespace separated integers/words (operations generated by TLC).
inline std::vector<std::string> lines(const std::string& path)
{
    std::vector<std::string> r;
    FILE* f = fopen(path.c_str(), "r");
    if (!f) return r;
    std::string cur; int c;
    while ((c = fgetc(f)) != EOF) { if (c == '\n') { r.push_back(cur); cur.clear(); } else cur += char(c); }
    if (!cur.empty()) r.push_back(cur);
    fclose(f);
    return r;
}

} // namespace tr
