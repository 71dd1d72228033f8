// Concurrent workloads: worker pool, event recording, injected delays, a wall-clock watchdog and a
// linearizability checker for short histories.
#ifndef VERIF_CONC_HPP_
#define VERIF_CONC_HPP_

#include <sched.h>
#include <time.h>

#include <atomic>
#include <chrono>
#include <deque>
#include <memory>
#include <thread>

#include "mon.hpp"

namespace conc {

using mon::Rng;

// ---------------------------------------------------------------- delays
struct Delay {
    uint64_t s;
    unsigned percent;
    Delay() : s(88172645463325252ull), percent(0) {}
    void maybe() {
        if (!percent) return;
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        if (s % 100 >= percent) return;
        const unsigned k = static_cast<unsigned>((s >> 20) % 16);
        if (k < 8) { for (volatile unsigned i = 0; i < 40 * (k + 1); ++i) {} }
        else if (k < 14) ::sched_yield();
        else { timespec t = {0, static_cast<long>(1000 * (k - 13))}; ::nanosleep(&t, nullptr); }
    }
};

inline Delay& delay() {
    static thread_local Delay d;
    return d;
}

// ---------------------------------------------------------------- what threads report
// Threads never touch the recorder directly.
struct Flags {
    std::atomic<uint64_t> torn, dead, unexpected;
    std::atomic<int64_t> live;
    std::atomic<uint64_t> copies;
    std::atomic<int> boom_in;      // >0: the n-th copy from now throws
    Flags() : torn(0), dead(0), unexpected(0), live(0), copies(0), boom_in(0) {}
};
inline Flags& flags() {
    static Flags* f = new Flags();
    return *f;
}
struct Boom {};

// A value that is slow to copy, notices being read half-written and counts its live objects.
struct Noisy {
    uint64_t a, b;
    uint32_t magic;
    static uint64_t twin(uint64_t v) { return ~v * 0x9E3779B97F4A7C15ull; }
    Noisy() : a(0), b(twin(0)), magic(0x600DF00D) { flags().live.fetch_add(1, std::memory_order_relaxed); }
    explicit Noisy(uint64_t v) : a(v), b(twin(v)), magic(0x600DF00D) { flags().live.fetch_add(1, std::memory_order_relaxed); }
    Noisy(const Noisy& o) : magic(0x600DF00D) {
        load(o);
        flags().live.fetch_add(1, std::memory_order_relaxed);
    }
    Noisy& operator=(const Noisy& o) {
        if (magic != 0x600DF00D) flags().dead.fetch_add(1, std::memory_order_relaxed);
        load(o);
        return *this;
    }
    ~Noisy() {
        if (magic != 0x600DF00D) flags().dead.fetch_add(1, std::memory_order_relaxed);
        magic = 0xDEADDEAD;
        flags().live.fetch_add(-1, std::memory_order_relaxed);
    }
    void load(const Noisy& o) {
        flags().copies.fetch_add(1, std::memory_order_relaxed);
        if (flags().boom_in.load(std::memory_order_relaxed) > 0 && flags().boom_in.fetch_sub(1, std::memory_order_relaxed) == 1) throw Boom();
        if (o.magic != 0x600DF00D) flags().dead.fetch_add(1, std::memory_order_relaxed);
        a = o.a;
        delay().maybe();
        b = o.b;
        if (b != twin(a)) flags().torn.fetch_add(1, std::memory_order_relaxed);
    }
};

template<typename T> struct Item;
template<> struct Item<uint64_t> {
    static uint64_t make(uint64_t v) { return v; }
    static uint64_t get(uint64_t v) { return v; }
    static const char* name() { return "uint64"; }
};
template<> struct Item<Noisy> {
    static Noisy make(uint64_t v) { return Noisy(v); }
    static uint64_t get(const Noisy& v) {
        if (v.b != Noisy::twin(v.a)) flags().torn.fetch_add(1, std::memory_order_relaxed);
        return v.a;
    }
    static const char* name() { return "Noisy"; }
};
template<> struct Item<std::string> {
    static std::string make(uint64_t v) { return "a value long enough to live on the heap " + std::to_string(v); }
    static uint64_t get(const std::string& s) {
        if (s.size() <= 40) { flags().torn.fetch_add(1, std::memory_order_relaxed); return ~0ull; }
        return std::strtoull(s.c_str() + 40, nullptr, 10);
    }
    static const char* name() { return "std::string"; }
};

// ---------------------------------------------------------------- watchdog (wall clock)
// If no thread has made progress for a long time although it could, the run is declared hung; the
// driver repeats such a run before it believes it.
inline std::atomic<uint64_t>& progress() {
    static std::atomic<uint64_t> p(0);
    return p;
}
inline void step() { progress().fetch_add(1, std::memory_order_relaxed); }

inline void start_watchdog(double seconds) {
    std::thread([seconds] {
        uint64_t last = 0;
        auto since = std::chrono::steady_clock::now();
        for (;;) {
            timespec t = {0, 200000000};
            ::nanosleep(&t, nullptr);
            const uint64_t now = progress().load(std::memory_order_relaxed);
            const auto at = std::chrono::steady_clock::now();
            if (now != last) { last = now; since = at; continue; }
            if (std::chrono::duration<double>(at - since).count() > seconds) {
                const char msg[] = "H no thread makes progress although values are available\n";
                if (::write(mon::st().out, msg, sizeof msg - 1)) {}
                ::_exit(98);
            }
        }
    }).detach();
}

// ---------------------------------------------------------------- worker pool
// The same threads run one body per round. The barrier orders rounds, not what happens inside one.
class Pool {
public:
    explicit Pool(size_t n) : _n(n), _round(0), _done(0), _stop(false) {
        for (size_t i = 0; i < n; ++i) _t.push_back(std::thread([this, i] { loop(i); }));
    }
    ~Pool() {
        _stop = true;
        _round.fetch_add(1, std::memory_order_release);
        for (size_t i = 0; i < _n; ++i) _t[i].join();
    }
    size_t size() const { return _n; }
    // body(worker index); returns when all are done
    void run(const std::function<void(size_t)>& body) {
        _body = body;
        _done.store(0, std::memory_order_relaxed);
        _round.fetch_add(1, std::memory_order_release);
        unsigned k = 0;
        while (_done.load(std::memory_order_acquire) != _n) if (++k > 200) { ::sched_yield(); if (k > 2000) { timespec t = {0, 20000}; ::nanosleep(&t, nullptr); } }
        step();
    }
private:
    void loop(size_t i) {
        uint64_t seen = 0;
        for (;;) {
            unsigned k = 0;
            while (_round.load(std::memory_order_acquire) == seen) if (++k > 300) { ::sched_yield(); if (k > 3000) { timespec t = {0, 20000}; ::nanosleep(&t, nullptr); } }
            ++seen;
            if (_stop) return;
            try { _body(i); } catch (...) { flags().unexpected.fetch_add(1); }
            _done.fetch_add(1, std::memory_order_release);
        }
    }
    size_t _n;
    std::atomic<uint64_t> _round;
    std::atomic<size_t> _done;
    bool _stop;
    std::function<void(size_t)> _body;
    std::vector<std::thread> _t;
};

// ---------------------------------------------------------------- histories
struct Ev {
    int kind;           // meaning is the specification's
    uint64_t arg, ret;
    uint64_t inv, resp;
    int thread;
};

inline std::atomic<uint64_t>& clock() {
    static std::atomic<uint64_t> c(0);
    return c;
}
// a time stamp that orders events in real time without ordering anything else
inline uint64_t now() {
    std::atomic_signal_fence(std::memory_order_seq_cst);
    const uint64_t t = clock().fetch_add(1, std::memory_order_relaxed);
    std::atomic_signal_fence(std::memory_order_seq_cst);
    return t;
}

// Spec: State initial; bool apply(State&, const Ev&) - false if the event is impossible there;
// std::string key(const State&)
template<typename Spec>
class Linearizer {
public:
    Linearizer(const Spec& s, const std::vector<Ev>& e) : _spec(s), _e(e), _steps(0) {}
    // 1 linearizable, 0 not, -1 gave up
    int check() {
        typename Spec::State st = _spec.initial();
        return go(0, st);
    }
    uint64_t steps() const { return _steps; }
private:
    int go(uint64_t done, const typename Spec::State& st) {
        if (done == (1ull << _e.size()) - 1) return 1;
        if (++_steps > 2000000) return -1;
        const std::string k = _spec.key(st) + "#" + std::to_string(done);
        if (!_memo.insert(k).second) return 0;
        uint64_t first = ~0ull;
        for (size_t i = 0; i < _e.size(); ++i)
            if (!(done >> i & 1) && _e[i].resp < first) first = _e[i].resp;
        for (size_t i = 0; i < _e.size(); ++i) {
            if ((done >> i & 1) || _e[i].inv > first) continue;
            typename Spec::State s2 = st;
            if (!_spec.apply(s2, _e[i])) continue;
            const int r = go(done | 1ull << i, s2);
            if (r) return r;
        }
        return 0;
    }
    const Spec& _spec;
    const std::vector<Ev>& _e;
    std::unordered_set<std::string> _memo;
    uint64_t _steps;
};

// which operations overlapped and in what order they were called and returned
inline uint64_t shape(const std::vector<Ev>& e) {
    std::vector<std::pair<uint64_t, uint64_t>> t;
    for (size_t i = 0; i < e.size(); ++i) {
        t.push_back(std::make_pair(e[i].inv, static_cast<uint64_t>(e[i].thread) * 64 + static_cast<uint64_t>(e[i].kind) * 2));
        t.push_back(std::make_pair(e[i].resp, static_cast<uint64_t>(e[i].thread) * 64 + static_cast<uint64_t>(e[i].kind) * 2 + 1));
    }
    std::sort(t.begin(), t.end());
    uint64_t h = 1;
    for (size_t i = 0; i < t.size(); ++i) h = mon::mix(h, t[i].second);
    return h;
}

inline bool overlapping(const std::vector<Ev>& e) {
    for (size_t i = 0; i < e.size(); ++i)
        for (size_t j = 0; j < i; ++j)
            if (e[i].inv < e[j].resp && e[j].inv < e[i].resp) return true;
    return false;
}

inline std::string show(const std::vector<Ev>& e, const char* const* names) {
    std::vector<Ev> s = e;
    std::sort(s.begin(), s.end(), [](const Ev& a, const Ev& b) { return a.inv < b.inv; });
    std::string r;
    const uint64_t t0 = s.empty() ? 0 : s[0].inv;
    for (size_t i = 0; i < s.size(); ++i)
        r += mon::sf(" T%d:%s(%lld)=%lld@[%llu,%llu]", s[i].thread, names[s[i].kind], static_cast<long long>(s[i].arg), static_cast<long long>(s[i].ret),
                     static_cast<unsigned long long>(s[i].inv - t0), static_cast<unsigned long long>(s[i].resp - t0));
    return r;
}

// after all threads have stopped
inline void settle(const char* what, bool nothing_alive) {
    Flags& f = flags();
    if (f.torn.exchange(0)) mon::violation(std::string("torn:") + what, "a value was read half-written");
    if (f.dead.exchange(0)) mon::violation(std::string("dead:") + what, "a value that is not alive was read, assigned or destroyed");
    if (f.unexpected.exchange(0)) mon::violation(std::string("exception:") + what, "an operation threw");
    if (nothing_alive && f.live.load() != 0) {
        mon::violation(std::string("lifetime:") + what, mon::sf("%lld value objects left", static_cast<long long>(f.live.load())));
        f.live = 0;
    }
}

}  // namespace conc

#endif
