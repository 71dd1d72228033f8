// Monitors shared by all workload programs. C++11, no dependency on efp.
#ifndef VERIF_MON_HPP_
#define VERIF_MON_HPP_

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <new>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>

namespace mon {

// ---------------------------------------------------------------- PRNG (splitmix/xorshift)
struct Rng {
    uint64_t s;

    // neighbouring seeds must not give shifted copies of one stream
    explicit Rng(uint64_t seed = 1) : s(seed + 0xD1B54A32D192ED03ull) {
        s = next() * 0xff51afd7ed558ccdull;
        s = next() ^ (seed << 32);
    }

    uint64_t next() {
        s += 0x9E3779B97F4A7C15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }

    // uniform in [0, n)
    size_t below(size_t n) {
        return n == 0 ? 0 : static_cast<size_t>(next() % n);
    }

    int range(int lo, int hi) {
        return lo + static_cast<int>(below(static_cast<size_t>(hi - lo + 1)));
    }

    bool chance(unsigned percent) {
        return below(100) < percent;
    }

    double unit() {
        return (next() >> 11) * (1.0 / 9007199254740992.0);
    }
};

inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 33);
}

// ---------------------------------------------------------------- run state
struct State {
    uint64_t seed;
    double scale;           // workload multiplier
    int out;                // record file
    char* tag;              // shared mapping: what is running, survives any crash
    std::string only;       // replay: run only this case
    std::map<std::string, uint64_t> counters;
    std::map<std::string, int> reported;
    std::unordered_set<uint64_t> distinct;
    uint64_t evaluations;
    uint64_t violations;
    int samples;
    uint64_t pulse;
};

inline State& st() {
    static State* s = new State();
    return *s;
}

inline void record(const std::string& line) {
    std::string l = line;
    for (size_t i = 0; i < l.size(); ++i) {
        if (l[i] == '\n' || l[i] == '\r' || l[i] == '\0') l[i] = ' ';
    }
    if (l.size() > 3000) l.resize(3000);
    l += '\n';
    size_t off = 0;
    while (off < l.size()) {
        const ssize_t n = ::write(st().out, l.data() + off, l.size() - off);
        if (n <= 0) break;
        off += static_cast<size_t>(n);
    }
}

inline std::string sf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

inline std::string sf(const char* fmt, ...) {
    char buf[2048];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    return buf;
}

inline void set_tag(const std::string& t) {
    const size_t n = t.size() < 4000 ? t.size() : 4000;
    std::memcpy(st().tag, t.data(), n);
    st().tag[n] = 0;
}

inline std::string tag() {
    return st().tag;
}

// The monitors' own bookkeeping does not count as heap use of the code under test.
inline int& heap_paused() {
    static int v = 0;
    return v;
}
struct HeapPause {
    HeapPause() { ++heap_paused(); }
    ~HeapPause() { --heap_paused(); }
};

// A refuted oracle. The key names what failed; the detail is the witness.
inline void violation(const std::string& key, const std::string& detail) {
    HeapPause hp;
    ++st().violations;
    if (st().reported[key]++ < 2) record("V " + key + "\t" + detail + "\t@ " + tag());
}

inline void count(const std::string& name, uint64_t n = 1) {
    HeapPause hp;
    st().counters[name] += n;
}

inline void seen(uint64_t h) {
    HeapPause hp;
    if (st().distinct.size() < 4000000) st().distinct.insert(h);
}

inline void sample(const std::string& s) {
    HeapPause hp;
    if (st().samples < 6) {
        ++st().samples;
        record("S " + s);
    }
}

inline void harness_error(const std::string& why) {
    record("E " + why);
    _exit(77);
}

// ---------------------------------------------------------------- CPU-time watchdog per case
extern "C" inline void mon_on_vtalrm(int) {
    static uint64_t last = 0;
    static int stuck = 0;
    if (st().pulse == last) {
        if (++stuck >= 2) {
            const char msg[] = "H hang\n";
            if (::write(st().out, msg, sizeof msg - 1)) {}
            _exit(98);
        }
    } else {
        stuck = 0;
        last = st().pulse;
    }
}

// begin of one case
inline void begin_case(const std::string& t) {
    ++st().pulse;
    ++st().evaluations;
    set_tag(t);
}

inline size_t scaled(size_t n) {
    const double v = static_cast<double>(n) * st().scale;
    return v < 1 ? 1 : static_cast<size_t>(v);
}

// under valgrind only a small part of every workload runs
inline bool slow() { return st().scale < 0.5; }

inline void init(int argc, char** argv) {
    State& s = st();
    s.seed = 1;
    s.scale = 1;
    s.out = 2;
    s.evaluations = s.violations = 0;
    s.samples = 0;
    s.pulse = 0;
    s.tag = static_cast<char*>(std::malloc(4096));
    s.tag[0] = 0;
    double hang_s = 40;
    for (int i = 1; i + 1 < argc; i += 2) {
        const std::string k = argv[i];
        if (k == "--seed") s.seed = std::strtoull(argv[i + 1], nullptr, 10);
        else if (k == "--scale") s.scale = std::atof(argv[i + 1]);
        else if (k == "--only") s.only = argv[i + 1];
        else if (k == "--hang") hang_s = std::atof(argv[i + 1]);
        else if (k == "--out") {
            s.out = ::open(argv[i + 1], O_WRONLY | O_CREAT | O_APPEND, 0644);
            if (s.out < 0) _exit(77);
            const int t = ::open((std::string(argv[i + 1]) + ".tag").c_str(), O_RDWR | O_CREAT, 0644);
            if (t < 0 || ::ftruncate(t, 4096) != 0) _exit(77);
            void* m = ::mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, t, 0);
            if (m == MAP_FAILED) _exit(77);
            s.tag = static_cast<char*>(m);
            s.tag[0] = 0;
            ::close(t);
        }
    }
    signal(SIGVTALRM, mon_on_vtalrm);
    itimerval tv;
    tv.it_interval.tv_sec = static_cast<time_t>(hang_s / 2);
    tv.it_interval.tv_usec = 0;
    tv.it_value = tv.it_interval;
    setitimer(ITIMER_VIRTUAL, &tv, nullptr);
}

inline int finish() {
    State& s = st();
    set_tag("");
    for (std::map<std::string, uint64_t>::const_iterator it = s.counters.begin(); it != s.counters.end(); ++it)
        record("C " + it->first + "\t" + std::to_string(it->second));
    record("N " + std::to_string(std::max<uint64_t>(s.evaluations, s.distinct.size())) + "\t" + std::to_string(s.distinct.size()));
    record("END");
    return s.violations ? 1 : 0;
}

// does replay want this group of cases?
inline bool wanted(const std::string& name) {
    return st().only.empty() || name.find(st().only) != std::string::npos;
}

// ---------------------------------------------------------------- heap monitor
// Counts through the sanitizer's malloc hooks, so that the sanitizer's own checks of matching
// allocation functions stay in place. Absent (never counts) without a sanitizer runtime.
struct Heap {
    static int64_t& live() {
        static int64_t v = 0;
        return v;
    }
    static uint64_t& allocs() {
        static uint64_t v = 0;
        return v;
    }
    static bool& on() {
        static bool v = false;
        return v;
    }
};

}  // namespace mon

extern "C" int __sanitizer_install_malloc_and_free_hooks(
    void (*malloc_hook)(const volatile void*, size_t),
    void (*free_hook)(const volatile void*)
) __attribute__((weak));

namespace mon {

inline void heap_on_malloc(const volatile void*, size_t) {
    if (heap_paused()) return;
    ++Heap::live();
    ++Heap::allocs();
}

inline void heap_on_free(const volatile void* p) {
    if (heap_paused()) return;
    if (p) --Heap::live();
}

inline void registry_warm();
inline void ledger_warm();
inline void heap_install() {
    registry_warm();
    ledger_warm();
    try { throw std::runtime_error("warm up"); } catch (const std::exception&) {}
    Heap::live() = 0;
    Heap::allocs() = 0;
    if (__sanitizer_install_malloc_and_free_hooks) {
        __sanitizer_install_malloc_and_free_hooks(heap_on_malloc, heap_on_free);
        void* volatile p = std::malloc(3);
        Heap::on() = Heap::allocs() == 1;
        std::free(p);
        if (!Heap::on()) harness_error("the heap monitor sees nothing");
    }
}

// ---------------------------------------------------------------- live-object registry
// Open-addressing table address -> serial number. Fixed size: it never allocates during a case.
class Registry {
public:
    enum { bits = 17, cap = 1 << bits };

    static Registry& get() {
        static Registry* r = new Registry();
        return *r;
    }

    bool contains(const void* p) const {
        return slot(p) != npos();
    }

    // false: was already there
    bool insert(const void* p) {
        size_t i = hash(p);
        while (_t[i]) {
            if (_t[i] == p) return false;
            i = (i + 1) & (cap - 1);
        }
        if (_n * 2 > cap) harness_error("registry full");
        _t[i] = p;
        ++_n;
        return true;
    }

    bool erase(const void* p) {
        size_t i = slot(p);
        if (i == npos()) return false;
        --_n;
        // backward shift
        size_t j = i;
        for (;;) {
            _t[i] = nullptr;
            for (;;) {
                j = (j + 1) & (cap - 1);
                if (!_t[j]) return true;
                const size_t k = hash(_t[j]);
                if (i <= j ? (i < k && k <= j) : (i < k || k <= j)) continue;
                break;
            }
            _t[i] = _t[j];
            i = j;
        }
    }

    size_t size() const {
        return _n;
    }

    void clear() {
        std::memset(_t, 0, sizeof _t);
        _n = 0;
    }

private:
    Registry() {
        clear();
    }

    static size_t npos() {
        return ~static_cast<size_t>(0);
    }

    static size_t hash(const void* p) {
        uint64_t x = reinterpret_cast<uintptr_t>(p);
        x = (x ^ (x >> 33)) * 0xff51afd7ed558ccdull;
        return static_cast<size_t>((x ^ (x >> 29)) & (cap - 1));
    }

    size_t slot(const void* p) const {
        size_t i = hash(p);
        while (_t[i]) {
            if (_t[i] == p) return i;
            i = (i + 1) & (cap - 1);
        }
        return npos();
    }

    const void* _t[cap];
    size_t _n;
};

inline void registry_warm() { Registry::get(); }

struct Life {
    static uint64_t& events() {
        static uint64_t v = 0;
        return v;
    }
    // >0: the n-th copy from now throws
    static int64_t& throw_copy_in() {
        static int64_t v = -1;
        return v;
    }
};

struct CopyBoom {
    int id;
};

inline int64_t& throw_make_in() {   // >0: the n-th element made from nothing throws
    static int64_t v = -1;
    return v;
}

enum { MOVED = -770077, FRESH = 0 };

// The state all instrumented elements share. Single-threaded programs only.
class Core {
public:
    explicit Core(int v) : _value(v), _self(this), _heap(nullptr) {
        if (throw_make_in() > 0 && --throw_make_in() == 0) {
            throw_make_in() = -1;
            CopyBoom b = {_value};
            throw b;
        }
        _heap = new int(v);
        born("construct-over-live");
    }

    Core(const Core& o, int) : _value(o.peek("copy-from-dead")), _self(this), _heap(nullptr) {
        if (Life::throw_copy_in() > 0 && --Life::throw_copy_in() == 0) {
            Life::throw_copy_in() = -1;
            CopyBoom b = {_value};
            throw b;
        }
        _heap = new int(_value);
        born("copy-construct-over-live");
    }

    Core(Core&& o, long) : _value(o.peek("move-from-dead")), _self(this), _heap(nullptr) {
        std::swap(_heap, o._heap);
        o._value = MOVED;
        born("move-construct-over-live");
    }

    void assign(const Core& o) {
        alive("assign-to-dead");
        const int v = o.peek("assign-from-dead");
        if (Life::throw_copy_in() > 0 && --Life::throw_copy_in() == 0) {
            Life::throw_copy_in() = -1;
            CopyBoom b = {v};
            throw b;
        }
        if (this == &o) return;
        int* h = new int(v);
        delete _heap;
        _heap = h;
        _value = v;
    }

    void take(Core& o) {
        alive("move-assign-to-dead");
        const int v = o.peek("move-assign-from-dead");
        if (this == &o) return;
        delete _heap;
        _heap = o._heap;
        o._heap = nullptr;
        _value = v;
        o._value = MOVED;
    }

    ~Core() {
        ++Life::events();
        if (!Registry::get().erase(this)) {
            violation("destroy-dead", "destructor of an object that is not alive");
            return;
        }
        if (_self != this) violation("relocated", "object was moved without its move constructor");
        delete _heap;
    }

    int get() const {
        return peek("read-dead");
    }

    void set(int v) {
        alive("write-dead");
        if (!_heap) _heap = new int(v);
        *_heap = v;
        _value = v;
    }

private:
    Core(const Core&);
    Core& operator=(const Core&);

    void born(const char* key) {
        ++Life::events();
        if (!Registry::get().insert(this)) violation(key, "an object is already alive at this address");
    }

    void alive(const char* key) const {
        ++Life::events();
        if (!Registry::get().contains(this)) violation(key, "object is not alive");
        else if (_self != this) violation("relocated", "object was moved without its move constructor");
    }

    int peek(const char* key) const {
        if (!Registry::get().contains(this)) {
            violation(key, "object is not alive");
            return -13;
        }
        if (_self != this) violation("relocated", "object was moved without its move constructor");
        if (_value != MOVED && (!_heap || *_heap != _value))
            violation("payload", "payload of an element is gone or differs");
        return _value;
    }

    int _value;
    const Core* _self;
    int* _heap;
};

// Instrumented element kinds
#define MON_COMMON(T)                                        \
    int get() const { return _c.get(); }                     \
    void set(int v) { _c.set(v); }                           \
    bool operator==(const T& o) const { return get() == o.get(); } \
    bool operator!=(const T& o) const { return get() != o.get(); } \
    bool operator<(const T& o) const { return get() < o.get(); }

// copyable and movable
struct Tracked {
    Core _c;
    Tracked() : _c(FRESH) {}
    explicit Tracked(int v) : _c(v) {}
    Tracked(const Tracked& o) : _c(o._c, 0) {}
    Tracked(Tracked&& o) noexcept : _c(std::move(o._c), 0L) {}
    Tracked& operator=(const Tracked& o) { _c.assign(o._c); return *this; }
    Tracked& operator=(Tracked&& o) noexcept { _c.take(o._c); return *this; }
    MON_COMMON(Tracked)
};

// no move operations: copies only
struct CopyOnly {
    Core _c;
    CopyOnly() : _c(FRESH) {}
    explicit CopyOnly(int v) : _c(v) {}
    CopyOnly(const CopyOnly& o) : _c(o._c, 0) {}
    CopyOnly& operator=(const CopyOnly& o) { _c.assign(o._c); return *this; }
    MON_COMMON(CopyOnly)
};

// no copy operations
struct MoveOnly {
    Core _c;
    MoveOnly() : _c(FRESH) {}
    explicit MoveOnly(int v) : _c(v) {}
    MoveOnly(const MoveOnly&) = delete;
    MoveOnly& operator=(const MoveOnly&) = delete;
    MoveOnly(MoveOnly&& o) noexcept : _c(std::move(o._c), 0L) {}
    MoveOnly& operator=(MoveOnly&& o) noexcept { _c.take(o._c); return *this; }
    MON_COMMON(MoveOnly)
};

// over-aligned
template<size_t align>
struct alignas(align) Aligned {
    Core _c;
    Aligned() : _c(FRESH) { check(); }
    explicit Aligned(int v) : _c(v) { check(); }
    Aligned(const Aligned& o) : _c(o._c, 0) { check(); }
    Aligned(Aligned&& o) noexcept : _c(std::move(o._c), 0L) { check(); }
    Aligned& operator=(const Aligned& o) { _c.assign(o._c); return *this; }
    Aligned& operator=(Aligned&& o) noexcept { _c.take(o._c); return *this; }
    MON_COMMON(Aligned)
    void check() {
        if (reinterpret_cast<uintptr_t>(this) % align)
            violation("misaligned", sf("object aligned to %zu constructed at %p", align, static_cast<void*>(this)));
    }
};

// values of element types in one place: how to make one from an int and read it back
template<typename T> struct Val;
#define MON_VAL(T)                                   \
    template<> struct Val<T> {                       \
        static T make(int v) { return T(v); }        \
        static int get(const T& t) { return t.get(); } \
        static void set(T& t, int v) { t.set(v); }   \
        static const char* name() { return #T; }     \
        static int fresh() { return FRESH; }         \
    };
MON_VAL(Tracked)
MON_VAL(CopyOnly)
MON_VAL(MoveOnly)
template<size_t a> struct Val<Aligned<a>> {
    static Aligned<a> make(int v) { return Aligned<a>(v); }
    static int get(const Aligned<a>& t) { return t.get(); }
    static void set(Aligned<a>& t, int v) { t.set(v); }
    static const char* name() { return a == 64 ? "Aligned64" : "AlignedN"; }
    static int fresh() { return FRESH; }
};
template<> struct Val<int> {
    static int make(int v) { return v; }
    static int get(int t) { return t; }
    static void set(int& t, int v) { t = v; }
    static const char* name() { return "int"; }
    static int fresh() { return 0; }
};
template<> struct Val<double> {
    static double make(int v) { return v * 0.5; }
    static int get(double t) { return static_cast<int>(t * 2); }
    static void set(double& t, int v) { t = v * 0.5; }
    static const char* name() { return "double"; }
    static int fresh() { return 0; }
};
template<> struct Val<uint8_t> {
    static uint8_t make(int v) { return static_cast<uint8_t>(v); }
    static int get(uint8_t t) { return t; }
    static void set(uint8_t& t, int v) { t = static_cast<uint8_t>(v); }
    static const char* name() { return "uint8"; }
    static int fresh() { return 0; }
};
template<> struct Val<char> {
    static char make(int v) { return static_cast<char>(v % 120); }
    static int get(char t) { return t; }
    static void set(char& t, int v) { t = static_cast<char>(v % 120); }
    static const char* name() { return "char"; }
    static int fresh() { return 0; }
};
template<> struct Val<std::string> {
    static std::string make(int v) { return "element number " + std::to_string(v); }
    static int get(const std::string& t) { return t.size() < 15 ? (t.empty() ? 0 : -1) : std::atoi(t.c_str() + 15); }
    static void set(std::string& t, int v) { t = make(v); }
    static const char* name() { return "std::string"; }
    static int fresh() { return 0; }
};

// trivially copyable, odd size
struct Odd {
    unsigned char b[5];
    Odd() { std::memset(b, 0, 5); }
    explicit Odd(int v) { b[0] = 7; std::memcpy(b + 1, &v, 4); }
    int get() const { int v; std::memcpy(&v, b + 1, 4); return v; }
    void set(int v) { std::memcpy(b + 1, &v, 4); }
    bool operator==(const Odd& o) const { return get() == o.get(); }
    bool operator!=(const Odd& o) const { return get() != o.get(); }
    bool operator<(const Odd& o) const { return get() < o.get(); }
};
MON_VAL(Odd)

// objects alive now; call at the end of a case where nothing may be alive
inline void expect_no_live(const char* where) {
    const size_t n = Registry::get().size();
    if (n) {
        violation("leak-element", sf("%zu element(s) never destroyed (%s)", n, where));
        Registry::get().clear();
    }
}

// ---------------------------------------------------------------- scoped heap balance
struct HeapScope {
    int64_t l0, end;
    uint64_t a0;
    bool stopped;
    HeapScope() : l0(Heap::live()), end(0), a0(Heap::allocs()), stopped(false) {}
    // freeze the balance here, before the monitor's own strings are made
    HeapScope& stop() { end = Heap::live() - l0; stopped = true; return *this; }
    int64_t delta() const { return Heap::live() - l0; }
    uint64_t allocs() const { return Heap::allocs() - a0; }
    void expect_balanced(const char* where) const {
        const int64_t d = stopped ? end : delta();
        if (Heap::on() && d != 0)
            violation("leak-heap", sf("%lld heap block(s) left (%s)", static_cast<long long>(d), where));
    }
};

// ---------------------------------------------------------------- allocator monitor
// Every block is given back exactly once, with the length it was asked for. The n-th allocation from now fails.
struct Ledger {
    std::map<const void*, size_t> blocks;
    long fail_in;
    uint64_t allocations;
    Ledger() : fail_in(-1), allocations(0) {}
    static Ledger& get() {
        static Ledger* l = new Ledger();
        return *l;
    }
    void expect_empty(const char* where) {
        HeapPause hp;
        if (!blocks.empty()) { violation("allocator:leak", sf("%zu block(s) never given back (%s)", blocks.size(), where)); blocks.clear(); }
    }
};
inline void ledger_warm() { Ledger::get(); }
template<typename T> struct MonAlloc {
    typedef T value_type;
#ifdef MON_FREESTANDING   // the library's own allocator traits ask for all of these
    typedef T* pointer;
    typedef const T* const_pointer;
    typedef size_t size_type;
    typedef ptrdiff_t difference_type;
    template<typename U> struct rebind { typedef MonAlloc<U> other; };
    size_t max_size() const { return static_cast<size_t>(-1) / sizeof(T); }
    template<typename U, typename... As> void construct(U* p, As&&... as) { new (static_cast<void*>(p)) U(std::forward<As>(as)...); }
    template<typename U> void destroy(U* p) { p->~U(); }
#endif
    MonAlloc() {}
    template<typename U> MonAlloc(const MonAlloc<U>&) {}
    T* allocate(size_t n) {
        Ledger& l = Ledger::get();
        if (l.fail_in >= 0 && l.fail_in-- == 0) throw std::bad_alloc();
        T* p = std::allocator<T>().allocate(n);
        HeapPause hp;
        ++l.allocations;
        l.blocks[p] = n;
        return p;
    }
    void deallocate(T* p, size_t n) {
        Ledger& l = Ledger::get();
        {
            HeapPause hp;
            std::map<const void*, size_t>::iterator it = l.blocks.find(p);
            if (it == l.blocks.end()) { violation("allocator:foreign", sf("block %p of %zu given back was not taken from this allocator", static_cast<void*>(p), n)); return; }
            if (it->second != n) violation("allocator:length", sf("block of %zu given back as %zu", it->second, n));
            l.blocks.erase(it);
        }
        std::allocator<T>().deallocate(p, n);
    }
    bool operator==(const MonAlloc&) const { return true; }
    bool operator!=(const MonAlloc&) const { return false; }
};

// ---------------------------------------------------------------- hostile storage for one object
// Exactly sized heap block (redzones on both sides under ASan), filled with garbage before the
// constructor runs, so that members a constructor forgets do not happen to be zero.
template<typename T>
class Slot {
public:
    Slot() : _raw(nullptr), _p(nullptr) {}
    ~Slot() { kill(); }

    void* fresh(unsigned char fill) {
        kill();
        const size_t al = alignof(T) < sizeof(void*) ? sizeof(void*) : alignof(T);
        if (posix_memalign(&_raw, al, sizeof(T)) != 0) harness_error("memalign");
        std::memset(_raw, fill, sizeof(T));
        return _raw;
    }

    template<typename... Args>
    T& make(unsigned char fill, Args&&... args) {
        void* m = fresh(fill);
        _p = new (m) T(std::forward<Args>(args)...);
        return *_p;
    }

    T& adopt(T* p) { _p = p; return *_p; }

    void kill() {
        if (_p) { _p->~T(); _p = nullptr; }
        if (_raw) { std::free(_raw); _raw = nullptr; }
    }

    bool live() const { return _p != nullptr; }
    T& operator*() { return *_p; }
    T* operator->() { return _p; }

private:
    Slot(const Slot&);
    Slot& operator=(const Slot&);
    void* _raw;
    T* _p;
};

template<typename V>
std::string show(const V& v) {
    std::string s = "[";
    size_t k = 0;
    for (typename V::const_iterator it = v.begin(); it != v.end(); ++it) {
        if (k) s += " ";
        if (++k > 40) { s += "..."; break; }
        s += std::to_string(*it);
    }
    return s + "]";
}

// run f; any exception that escapes it is a violation
template<typename F>
void guarded(const char* what, const F& f) {
    try {
        f();
    } catch (const std::exception& e) {
        violation(std::string("unexpected-exception:") + what, e.what());
    } catch (...) {
        violation(std::string("unexpected-exception:") + what, "unknown exception");
    }
}

// f must throw E
template<typename E, typename F>
bool throws(const F& f) {
    try {
        f();
    } catch (const E&) {
        return true;
    } catch (...) {
        return false;
    }
    return false;
}

}  // namespace mon

#endif
