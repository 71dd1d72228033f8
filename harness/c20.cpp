// C20: compose, func_ptr, the primitive combinators, operator functions and compile-time arithmetic.
#include <algorithm>
#include <array>
#include <cmath>
#include <limits>
#include <memory>
#include <tuple>
#include <type_traits>

#include "efp.hpp"
#include "mon.hpp"

using namespace mon;

static std::string g_what;
static void bad(const std::string& f, const std::string& d) { violation(f, g_what + ": " + d); }

// ---------------------------------------------------------------- call log
struct Log {                       // no heap
    int n, v[64];
    Log() : n(0) {}
    void clear() { n = 0; }
    void add(int id) { if (n < 64) v[n++] = id; }
    void add_front(int id) { for (int i = n; i > 0; --i) v[i] = v[i - 1]; v[0] = id; ++n; }
    bool operator==(const Log& o) const { return n == o.n && std::equal(v, v + n, o.v); }
    std::string text() const { return show(std::vector<int>(v, v + n)); }
};
static Log g_log;
static void log_call(int id) { g_log.add(id); }

// ---------------------------------------------------------------- callable kinds, all int -> int, each with an id in the log
static int step(int id, int k, int x) { return static_cast<int>((static_cast<uint32_t>(x) * 31u + static_cast<uint32_t>(k) * 7u + static_cast<uint32_t>(id)) % 100003u); }

struct Owning {                    // owns an element and a heap block, checks itself at every call
    int id;
    Tracked k;
    std::string note;
    Owning(int i, int v) : id(i), k(v), note(Val<std::string>::make(v)) {}
    int operator()(int x) const {
        log_call(id);
        if (Val<std::string>::get(note) != k.get()) bad("compose", "a composed function lost its state");
        return step(id, k.get(), x);
    }
};
struct Plain {
    int id, k;
    int operator()(int x) const { log_call(id); return step(id, k, x); }
};
struct Shared {                    // state outside, by reference count
    int id;
    std::shared_ptr<int> k;
    int operator()(int x) const { log_call(id); return step(id, *k, x); }
};
struct Templ {
    int id, k;
    template<typename T> T operator()(const T& x) const { log_call(id); return step(id, k, x); }
};
struct Noex {
    int id, k;
    int operator()(int x) const noexcept { log_call(id); return step(id, k, x); }
};
static int g_fk = 0;
static int free_fn(int x) { log_call(-1); return step(-1, g_fk, x); }
static int free_noex(int x) noexcept { log_call(-2); return step(-2, g_fk, x); }
static int free_cref(const int& x) { log_call(-3); return step(-3, g_fk, x); }
template<typename T> static T free_templ(T x) { log_call(-4); return step(-4, g_fk, x); }

// a maker per kind: building the callable from (id, k), and its meaning
struct KOwning { typedef Owning T; static T make(int id, int k) { return T(id, k); } };
struct KPlain { typedef Plain T; static T make(int id, int k) { T t = {id, k}; return t; } };
struct KShared { typedef Shared T; static T make(int id, int k) { T t = {id, std::make_shared<int>(k)}; return t; } };
struct KTempl { typedef Templ T; static T make(int id, int k) { T t = {id, k}; return t; } };
struct KNoex { typedef Noex T; static T make(int id, int k) { T t = {id, k}; return t; } };
struct KStd { typedef std::function<int(int)> T; static T make(int id, int k) { const std::string big(40, 'x'); return [=](int x) { log_call(id); return step(id, k + static_cast<int>(big.size()) - 40, x); }; } };
struct KPtr { typedef int (*T)(int); static T make(int id, int) { return id % 2 ? &free_fn : &free_templ<int>; } };
struct KPtrNoex { typedef int (*T)(int); static T make(int, int) { return free_noex; } };

// what the chain means: the functions one after another, innermost (last) first
template<typename... Ts> struct Direct;
template<typename T> struct Direct<T> { static int call(int x, const T& t) { return t(x); } };
template<typename T, typename U, typename... Ts> struct Direct<T, U, Ts...> {
    static int call(int x, const T& t, const U& u, const Ts&... ts) { return t(Direct<U, Ts...>::call(x, u, ts...)); }
};

template<typename C>
static void check_call(const C& c, int x, int want, const Log& wlog, const char* what) {
    g_log.clear();
    const int got = c(x);
    const Log l = g_log;
    if (got != want) bad("compose", sf("%s: called with %d gives %d, not %d", what, x, got, want));
    if (!(l == wlog)) bad("compose", std::string(what) + ": functions called " + l.text() + ", not " + wlog.text());
}

template<size_t... is> struct Idx {};
template<size_t n, size_t... is> struct MkIdx : MkIdx<n - 1, n - 1, is...> {};
template<size_t... is> struct MkIdx<0, is...> { typedef Idx<is...> type; };

template<typename... Ks> struct Chain {
    typedef decltype(efp::compose(std::declval<const typename Ks::T&>()...)) C;

    // the originals die before the composition is used
    template<typename... Ts>
    static C build(int x, int& want, Log& wlog, const Ts&... ts) {
        g_log.clear();
        want = Direct<Ts...>::call(x, ts...);
        wlog = g_log;
        return efp::compose(ts...);
    }

    template<size_t... is>
    static C* unpack(const std::tuple<typename Ks::T...>& t, int x, int& want, Log& wlog, Idx<is...>) { return new C(build(x, want, wlog, std::get<is>(t)...)); }

    template<size_t n>
    static void scribble() { volatile char b[n]; for (size_t i = 0; i < n; ++i) b[i] = static_cast<char>(0xAB); }

    static void run(size_t cases) {
        for (size_t c = 0; c < cases; ++c) {
            Rng r(st().seed * 1000003 + c * 131 + sizeof...(Ks) * 7919);
            g_what = sf("compose chain of %zu, case %zu", sizeof...(Ks), c);
            begin_case(g_what);
            g_fk = r.range(0, 1000);
            const int x = r.range(0, 100000), y = r.range(0, 100000);
            int want = 0;
            Log wlog;
            HeapScope heap;
            {
                int n = 0;
                const int k = r.range(0, 999);
                std::unique_ptr<C> p;
                {
                    // braces: evaluated in order, so ids count from the outermost
                    const std::tuple<typename Ks::T...> t {Ks::make(++n, k + n)...};
                    p.reset(unpack(t, x, want, wlog, typename MkIdx<sizeof...(Ks)>::type()));
                }
                scribble<3000>();
                check_call(*p, x, want, wlog, "after the functions are gone");
                check_call(*p, x, want, wlog, "called again");
                {
                    const C copy(*p);
                    check_call(copy, x, want, wlog, "copy");
                    p.reset();
                    scribble<3000>();
                    check_call(copy, x, want, wlog, "copy after the original is gone");
                    (void)copy(y);
                    check_call(copy, x, want, wlog, "after another argument");
                    // composing compositions is associative
                    const auto left = efp::compose(KOwning::make(90, k), copy);
                    const auto right = efp::compose(copy, KOwning::make(91, k));
                    g_log.clear();
                    const int wl = step(90, k, copy(x)), wr = copy(step(91, k, x));
                    Log ll = wlog, lr = wlog;
                    ll.add(90);
                    lr.add_front(91);
                    check_call(left, x, wl, ll, "composed with one more outside");
                    check_call(right, x, wr, lr, "composed with one more inside");
                }
            }
            heap.stop();
            heap.expect_balanced(g_what.c_str());
            expect_no_live(g_what.c_str());
            count("composed calls checked", 7);
            count(sf("chain length %zu", sizeof...(Ks)));
            seen(mix(mix(1, sizeof...(Ks)), static_cast<uint64_t>(want)));
        }
    }
};

// ---------------------------------------------------------------- arguments and results of a composition
struct Cat {                       // which reference category arrives at the innermost function
    const char* operator()(Tracked&) const { return "T&"; }
    const char* operator()(const Tracked&) const { return "const T&"; }
    const char* operator()(Tracked&&) const { return "T&&"; }
    const char* operator()(const Tracked&, Tracked&&) const { return "const T&, T&&"; }
    const char* operator()(Tracked&, const Tracked&) const { return "T&, const T&"; }
    const char* operator()() const { return "nothing"; }
};
struct Same { template<typename T> T operator()(T t) const { return t; } };
struct Pick { int& operator()(std::array<int, 4>& a) const { return a[2]; } };
struct Ref { int& operator()(int& x) const { return x; } };
struct CRef { const int& operator()(const int& x) const { return x; } };
struct TakeMove { std::unique_ptr<int> operator()(std::unique_ptr<int> p) const { ++*p; return p; } };
struct Unwrap { int operator()(const std::unique_ptr<int>& p) const { return *p; } };
struct Sink { int* out; void operator()(int x) const { *out = x; } };
struct Add3 { int operator()(int a, int b, int c) const { return a + 2 * b + 3 * c; } };
struct ToStr { std::string operator()(int x) const { return Val<std::string>::make(x); } };
struct Len { size_t operator()(const std::string& s) const { return s.size(); } };
static int mul2(int a, int b) { return a * b; }
static int answer() { return 42; }

static void arguments(size_t cases) {
    for (size_t c = 0; c < cases; ++c) {
        Rng r(st().seed * 7001 + c);
        const int a = r.range(-900, 900), b = r.range(-900, 900), d = r.range(-900, 900);
        g_what = sf("composition arguments, case %zu (%d, %d, %d)", c, a, b, d);
        begin_case(g_what);
        HeapScope heap;
        {
            Tracked t(a), u(b);
            const Tracked ct(a);
            const auto f = efp::compose(Same(), Cat());
            if (std::strcmp(f(t), "T&") || std::strcmp(f(ct), "const T&") || std::strcmp(f(Tracked(a)), "T&&") || std::strcmp(f(std::move(t)), "T&&"))
                bad("compose", "an argument arrives as another category");
            if (std::strcmp(f(ct, Tracked(b)), "const T&, T&&") || std::strcmp(f(u, ct), "T&, const T&") || std::strcmp(f(), "nothing")) bad("compose", "an argument arrives as another category");
            if (t.get() != a || u.get() != b) bad("compose", "an argument was consumed on the way");
            std::array<int, 4> arr = {{a, b, d, a + b}};
            int& e = efp::compose(Ref(), Pick())(arr);
            if (&e != &arr[2]) bad("compose", "a returned reference names another object");
            e = 5;
            if (arr[2] != 5 || arr[1] != b || arr[3] != a + b) bad("compose", "a returned reference names another object");
            int x = a;
            if (&efp::compose(CRef(), Ref(), Ref())(x) != &x) bad("compose", "a returned reference names another object");
            if (efp::compose(Unwrap(), TakeMove(), TakeMove())(std::unique_ptr<int>(new int(a))) != a + 2) bad("compose", "a move-only argument");
            int out = 0;
            efp::compose(Sink {&out}, Add3())(a, b, d);
            if (out != a + 2 * b + 3 * d) bad("compose", "several arguments");
            out = 0;
            efp::compose(Sink {&out}, mul2)(a, b);
            if (out != a * b) bad("compose", "a function with several arguments");
            if (efp::compose(Len(), ToStr(), answer)() != Val<std::string>::make(42).size()) bad("compose", "no arguments");
            if (efp::compose(ToStr(), free_cref, free_noex)(a) != Val<std::string>::make(step(-3, g_fk, step(-2, g_fk, a)))) bad("compose", "functions by name");
            if (efp::compose(Len(), ToStr())(a) != Val<std::string>::make(a).size()) bad("compose", "changing types");
            if (efp::compose([&](int p) { return p - b; }, [=](int p) { return p * d; })(a) != a * d - b) bad("compose", "closures");
            // a composition used as a function
            efp::Vector<int> v;
            for (int i = 0; i < 7; ++i) v.push_back(a + i);
            const auto m = efp::map(efp::compose([&](int p) { return p - b; }, [=](int p) { return p * d; }), v);
            for (int i = 0; i < 7; ++i) if (m[static_cast<size_t>(i)] != (a + i) * d - b) bad("compose", "in map");
            efp::Maybe<int> mb = a;
            if (mb.fmap(efp::compose([=](int p) { return p * b; }, [](int p) { return p * 2; })).value() != a * 2 * b) bad("compose", "in fmap");
        }
        heap.stop();
        heap.expect_balanced(g_what.c_str());
        expect_no_live(g_what.c_str());
        count("argument passing cases");
        seen(mix(mix(2, static_cast<uint64_t>(a + 1000)), static_cast<uint64_t>((b + 1000) * 2000 + d)));
    }
}

// ---------------------------------------------------------------- func_ptr
extern "C" int c_api_sum(int (*cb)(int, int), int n, int x) { int s = 0; for (int i = 0; i < n; ++i) s += cb(i, x); return s; }

// stack moved and overwritten between the conversion and the call
static void (*g_void_cb)() = nullptr;
static void deep(int n) { volatile char b[256]; b[0] = static_cast<char>(n); if (n > 0) deep(n - 1); else g_void_cb(); b[1] = b[0]; }

static int converted(int a) {
    auto f = [a](int x) { return x * 3 + a; };
    int (*p)(int) = efp::func_ptr(f);
    return p(a + 1) == (a + 1) * 3 + a && p(7) == 21 + a;
}
#if defined(__clang__)
__attribute__((noinline, optnone))
#else
__attribute__((noinline, noclone))
#endif
static int at_depth(int n, int a) {   // closures of one type at many addresses
    volatile char pad[48];
    pad[n % 48] = static_cast<char>(n);
    if (n <= 0) return converted(a);
    const int here = converted(a + n);
    const int r = at_depth(n - 1, a) && here && converted(a - n);
    pad[0] = pad[n % 48];
    return r;
}
struct Adder { int k; int operator()(int x) const { return x + k; } };
struct Tally { Tracked n; int operator()() { n = Tracked(n.get() + 1); return n.get(); } };
static void several_of_a_type(Rng& r) {
    if (!at_depth(r.range(0, 12), r.range(-1000, 1000))) bad("func_ptr:type", "a closure of a type converted before, at another address");
    std::vector<std::unique_ptr<Adder>> as;
    for (int i = r.range(1, 8); i > 0; --i) { as.emplace_back(new Adder()); as.back()->k = r.range(-1000, 1000); }
    for (int i = 0; i < 12; ++i) {
        Adder& x = *as[r.below(as.size())];
        int (*p)(int) = efp::func_ptr(x);
        const int k = r.range(-1000, 1000);
        if (p(k) != k + x.k) bad("func_ptr:type", "several function objects of one type");
        x.k = r.range(-1000, 1000);
        if (p(k) != k + x.k) bad("func_ptr:type", "a function object changed after it was converted");
    }
    Tally t1 = {Tracked(0)}, t2 = {Tracked(1000)};
    int n1 = 0, n2 = 1000;
    for (int i = 0; i < 12; ++i) {
        if (r.chance(50)) { if (efp::func_ptr(t1)() != ++n1) bad("func_ptr:type", "the state of one of two objects"); }
        else if (efp::func_ptr(t2)() != ++n2) bad("func_ptr:type", "the state of one of two objects");
    }
    if (t1.n.get() != n1 || t2.n.get() != n2) bad("func_ptr:type", "the state of two objects");
    count("func_ptr: closures of one type", as.size() + 2);
}

static void func_ptrs(size_t cases) {
    for (size_t c = 0; c < cases; ++c) {
        Rng r(st().seed * 9001 + c);
        const int a = r.range(-900, 900), b = r.range(-900, 900), n = r.range(0, 40);
        g_what = sf("func_ptr, case %zu (%d, %d, %d)", c, a, b, n);
        begin_case(g_what);
        HeapScope heap;
        {
            int calls = 0;
            // state by reference and by value
            const Tracked owned(b);
            auto f = [&calls, owned](int i, int x) { ++calls; return i * owned.get() + x; };
            int (*pf)(int, int) = efp::func_ptr(f);
            if (c_api_sum(pf, n, a) != n * (n - 1) / 2 * b + n * a || calls != n) bad("func_ptr", "a closure as a C callback");
            if (pf(3, a) != f(3, a)) bad("func_ptr", "differs from the closure");
            // the closure's own mutable state
            int start = b;
            auto counter = [start]() mutable { return start++; };
            int (*pc)() = efp::func_ptr(counter);
            for (int i = 0; i < n; ++i) if (pc() != b + i) bad("func_ptr", "the closure's state does not advance");
            if (counter() != b + n) bad("func_ptr", "the closure's state is not shared");
            if (pc() != b + n + 1) bad("func_ptr", "the closure's state is not shared");
            // through a deep stack
            auto cb = [&] { calls = -a; };
            g_void_cb = efp::func_ptr(cb);
            deep(n);
            if (calls != -a) bad("func_ptr", "a void closure");
            // argument and result kinds
            auto by_ref = [&](int& x) -> int& { x += a; return x; };
            int v = b;
            int& w = efp::func_ptr(by_ref)(v);
            if (&w != &v || v != a + b) bad("func_ptr", "reference argument and result");
            auto by_cref = [&](const Tracked& t, const std::string& s) { return t.get() + static_cast<int>(s.size()); };
            const std::string str(static_cast<size_t>(n), 'y');
            if (efp::func_ptr(by_cref)(owned, str) != b + n) bad("func_ptr", "const reference arguments");
            auto by_val = [&](Tracked t, std::string s) { s += 'z'; return Tracked(t.get() + static_cast<int>(s.size())); };
            if (efp::func_ptr(by_val)(owned, str).get() != b + n + 1 || owned.get() != b) bad("func_ptr", "value arguments");
            auto by_move = [](std::unique_ptr<int> p, int q) { *p += q; return p; };
            if (*efp::func_ptr(by_move)(std::unique_ptr<int>(new int(a)), b) != a + b) bad("func_ptr", "move-only argument and result");
            auto by_rv = [](Tracked&& t) { Tracked u(std::move(t)); return u.get(); };
            Tracked given(a);
            if (efp::func_ptr(by_rv)(std::move(given)) != a || given.get() != MOVED) bad("func_ptr", "rvalue reference argument");
            auto six = [&](char p, short q, int s, long t, float u, double x) { return static_cast<double>(p) + q + s + t + u + x + a; };
            double (*p6)(char, short, int, long, float, double) = efp::func_ptr(six);
            if (p6(1, 2, 3, 4, 5.5f, 6.25) != six(1, 2, 3, 4, 5.5f, 6.25)) bad("func_ptr", "six arguments");
            auto nx = [&](int p) noexcept { return p + a; };
            if (efp::func_ptr(nx)(b) != a + b) bad("func_ptr", "a noexcept closure");
            const auto cf = [&](int p) { return p - a; };
            if (efp::func_ptr(cf)(b) != b - a) bad("func_ptr", "a constant closure");
            // a functor and a function object
            Plain plain = {5, a};
            int (*pp)(int) = efp::func_ptr(plain);
            if (pp(77) != step(5, a, 77)) bad("func_ptr", "a function object");
            plain.k = b;
            if (pp(77) != step(5, b, 77)) bad("func_ptr", "a function object changed later");
            std::function<int(int)> sfn = [&](int p) { return p * a; };
            if (efp::func_ptr(sfn)(b) != a * b) bad("func_ptr", "std::function");
            // exceptions pass through
            auto thrower = [&](int p) { if (p) throw a; return 1; };
            int (*pt)(int) = efp::func_ptr(thrower);
            int got = a + 1;
            try { pt(1); } catch (int e) { got = e; }
            if (got != a || pt(0) != 1) bad("func_ptr", "an exception");
            // closures of different types do not disturb each other
            several_of_a_type(r);
            if (pf(2, b) != 2 * b + b || pc() != b + n + 2 || pp(1) != step(5, b, 1)) bad("func_ptr", "another conversion disturbed an earlier one");
        }
        heap.stop();
        heap.expect_balanced(g_what.c_str());
        expect_no_live(g_what.c_str());
        count("func_ptr cases");
        seen(mix(mix(3, static_cast<uint64_t>(a + 1000)), static_cast<uint64_t>((b + 1000) * 2000 + n)));
    }
}

// ---------------------------------------------------------------- operators, min, max, clamp, id on arithmetic types
template<typename T> T pick(Rng& r, std::true_type) {              // integral
    const T lo = std::numeric_limits<T>::lowest(), hi = std::numeric_limits<T>::max();
    switch (r.below(8)) {
        case 0: return lo;
        case 1: return hi;
        case 2: return 0;
        case 3: return 1;
        case 4: return static_cast<T>(-1);
        case 5: return static_cast<T>(hi / 2 + 1);
        case 6: return static_cast<T>(r.next());
        default: return static_cast<T>(r.range(-50, 50));
    }
}
template<typename T> T pick(Rng& r, std::false_type) {
    switch (r.below(9)) {
        case 0: return std::numeric_limits<T>::lowest();
        case 1: return std::numeric_limits<T>::max();
        case 2: return 0;
        case 3: return static_cast<T>(-0.0);
        case 4: return std::numeric_limits<T>::denorm_min();
        case 5: return std::numeric_limits<T>::infinity();
        case 6: return -std::numeric_limits<T>::infinity();
        case 7: return static_cast<T>((r.unit() - 0.5) * 1e30);
        default: return static_cast<T>(r.range(-50, 50)) / 8;
    }
}
template<typename T> bool same(const T& a, const T& b, std::false_type) { return a == b; }
template<typename T> bool same(const T& a, const T& b, std::true_type) { return std::isnan(a) ? std::isnan(b) : a == b && std::signbit(a) == std::signbit(b); }
template<typename T> bool same(const T& a, const T& b) { return same(a, b, std::is_floating_point<T>()); }

#define OP(name, expr) { const T got = efp::name(a, b); const T want = static_cast<T>(expr); if (!same(got, want)) bad(#name, "differs from the operator on " + std::to_string(a) + " and " + std::to_string(b)); }
#define CMP(name, expr) if (efp::name(a, b) != (expr)) bad(#name, "differs from the operator on " + std::to_string(a) + " and " + std::to_string(b));

template<typename T, typename W> void by_kind(T a, T b, std::true_type) {
    const W wa = a, wb = b;
    W w;
    const bool u = !std::is_signed<W>::value;
    if (u || !__builtin_add_overflow(wa, wb, &w)) OP(op_add, wa + wb)
    if (u || !__builtin_sub_overflow(wa, wb, &w)) OP(op_sub, wa - wb)
    if (u || !__builtin_mul_overflow(wa, wb, &w)) OP(op_mul, wa * wb)
    if (u || !__builtin_sub_overflow(W(0), wa, &w)) if (efp::op_neg(a) != static_cast<T>(-wa)) bad("op_neg", "of " + std::to_string(a));
    if (b != 0 && (u || !(wb == static_cast<W>(-1) && wa == std::numeric_limits<W>::lowest()))) { OP(op_div, wa / wb) OP(op_mod, wa % wb) }
}
template<typename T, typename W> void by_kind(T a, T b, std::false_type) {
    OP(op_add, a + b) OP(op_sub, a - b) OP(op_mul, a * b)
    if (b != 0) OP(op_div, a / b)
    if (!same(efp::op_neg(a), static_cast<T>(-a))) bad("op_neg", "of " + std::to_string(a));
}

template<typename T> void arithmetic(const char* name, size_t cases) {
    typedef std::is_integral<T> I;
    typedef decltype(T() + T()) W;
    for (size_t c = 0; c < cases; ++c) {
        Rng r(st().seed * 31 + c * 97 + sizeof(T) * 1009 + I::value);
        const T a = pick<T>(r, I()), b = r.chance(15) ? a : pick<T>(r, I()), x = pick<T>(r, I());
        g_what = sf("operators on %s, case %zu", name, c);
        if (c % 64 == 0) begin_case(g_what);
        CMP(op_eq, a == b) CMP(op_neq, a != b) CMP(op_lt, a < b) CMP(op_gt, a > b) CMP(op_leq, a <= b) CMP(op_geq, a >= b)
        if (efp::min(a, b) != (b < a ? b : a)) bad("min", "of " + std::to_string(a) + " and " + std::to_string(b));
        if (efp::max(a, b) != (a < b ? b : a)) bad("max", "of " + std::to_string(a) + " and " + std::to_string(b));
        if (!same(efp::id(a), a)) bad("id", "changed " + std::to_string(a));
        const T lo = b < a ? b : a, hi = b < a ? a : b;
        const T cl = efp::clamp(lo, hi, x);
        const T want = x < lo ? lo : hi < x ? hi : x;
        if (cl != want) bad("clamp", std::to_string(x) + " into " + std::to_string(lo) + ".." + std::to_string(hi) + " gives " + std::to_string(cl));
        if (efp::clamp(static_cast<T>(lo), static_cast<T>(hi), static_cast<T>(x)) != want) bad("clamp", "of temporaries");
        // arithmetic, where it does not overflow
        by_kind<T, W>(a, b, I());
        // compile-time folds, called with values
        const T arr[] = {a, b, x, lo};
        if (!(a - a == a - a) || !(b - b == b - b) || !(x - x == x - x)) continue;   // infinite
        if (efp::_maximum(arr) != std::max(std::max(a, b), x)) bad("_maximum", "of " + std::to_string(a) + ", " + std::to_string(b) + ", " + std::to_string(x));
        if (efp::_minimum(arr) != std::min(std::min(a, b), x)) bad("_minimum", "of " + std::to_string(a) + ", " + std::to_string(b) + ", " + std::to_string(x));
        if (efp::_maximum({a}) != a || efp::_minimum({a}) != a || !same(efp::_sum({a}), static_cast<T>(T(0) + a)) || !same(efp::_product({a}), static_cast<T>(T(1) * a))) bad("_maximum", "of one value " + std::to_string(a));
        count(std::string("operator evaluations on ") + name);
        seen(mix(mix(4, sizeof(T) * 2 + I::value), c % 4096));
    }
}

// ---------------------------------------------------------------- the same on class types, mixed clamps, booleans
static void class_types(size_t cases) {
    for (size_t c = 0; c < cases; ++c) {
        Rng r(st().seed * 577 + c);
        int a = r.range(-99, 99), b = r.range(-99, 99), x = r.range(-120, 120);
        g_what = sf("class types, case %zu (%d, %d, %d)", c, a, b, x);
        begin_case(g_what);
        HeapScope heap;
        {
            const Tracked ta(a), tb(b);
            if (efp::min(ta, tb).get() != std::min(a, b)) bad("min", "of objects");
            if (efp::op_eq(ta, tb) != (a == b) || efp::op_neq(ta, tb) != (a != b) || efp::op_lt(ta, tb) != (a < b)) bad("op_eq", "of objects");
            if (efp::id(ta).get() != a) bad("id", "of an object");
            const std::string sa = Val<std::string>::make(a), sb = Val<std::string>::make(b);
            if (efp::min(sa, sb) != std::min(sa, sb) || efp::max(sa, sb) != std::max(sa, sb)) bad("min", "of strings");
            if (efp::op_add(sa, sb) != sa + sb) bad("op_add", "of strings");
            const std::string& lo = std::min(sa, sb);
            const std::string& hi = std::max(sa, sb);
            const std::string sx = Val<std::string>::make(x);
            if (efp::clamp(lo, hi, sx) != (sx < lo ? lo : hi < sx ? hi : sx)) bad("clamp", "of strings");
            // clamp with three different types
            const double dlo = std::min(a, b) / 2.0;
            const long lhi = std::max(a, b);
            const double want = x < dlo ? dlo : x > lhi ? static_cast<double>(lhi) : x;
            if (dlo <= lhi && efp::clamp(dlo, lhi, x) != want) bad("clamp", "of mixed types");
            if (dlo <= lhi && efp::clamp(dlo, lhi, static_cast<float>(x)) != want) bad("clamp", "of mixed types");
            const bool p = a & 1, q = b & 1;
            if (efp::op_and(p, q) != (p && q) || efp::op_or(p, q) != (p || q) || efp::op_not(p) != !p) bad("op_and", "of booleans");
            const bool bs[] = {p, q, (x & 1) != 0};
            if (efp::_all(bs) != (bs[0] && bs[1] && bs[2]) || efp::_any(bs) != (bs[0] || bs[1] || bs[2])) bad("_all", "of booleans");
            // lengths: sums and products of sizes beyond the int range
            const size_t l[] = {static_cast<size_t>(r.next() >> r.range(2, 60)), static_cast<size_t>(r.next() >> r.range(2, 60)), static_cast<size_t>(r.range(0, 9))};
            if (efp::_sum(l) != l[0] + l[1] + l[2]) bad("_sum", sf("%zu + %zu + %zu gives %zu", l[0], l[1], l[2], efp::_sum(l)));
            if (efp::_product(l) != l[0] * l[1] * l[2]) bad("_product", sf("%zu * %zu * %zu gives %zu", l[0], l[1], l[2], efp::_product(l)));
            const double ds[] = {a / 8.0, b / 8.0, x / 8.0};
            if (efp::_sum(ds) != ds[0] + ds[1] + ds[2] || efp::_product(ds) != ds[0] * ds[1] * ds[2]) bad("_sum", "of fractions");
            if (efp::_maximum(ds) != std::max(ds[0], std::max(ds[1], ds[2])) || efp::_minimum(ds) != std::min(ds[0], std::min(ds[1], ds[2]))) bad("_maximum", "of fractions");
            const int is[] = {a, b, x, a, b};
            int fold = efp::_foldl([](int acc, int v) { return acc * 3 - v; }, 7, is), wf = 7;
            for (int v : is) wf = wf * 3 - v;
            if (fold != wf) bad("_foldl", "order of a fold");
            // swap
            {
                int i = a, j = b; efp::swap(i, j); if (i != b || j != a) bad("swap", "of ints");
                efp::swap(i, i); if (i != b) bad("swap", "with itself");
                Tracked t(a), u(b); efp::swap(t, u); if (t.get() != b || u.get() != a) bad("swap", "of objects");
                efp::swap(t, t); if (t.get() != b) bad("swap", "of an object with itself");
                MoveOnly m(a), n(b); efp::swap(m, n); if (m.get() != b || n.get() != a) bad("swap", "of move-only objects");
                CopyOnly e(a), f(b); efp::swap(e, f); if (e.get() != b || f.get() != a) bad("swap", "of copy-only objects");
                std::string s1 = sa, s2 = sb; efp::swap(s1, s2); if (s1 != sb || s2 != sa) bad("swap", "of strings");
                efp::Vector<Tracked> v1, v2;
                for (int k = 0; k < 5; ++k) v1.push_back(Tracked(a + k));
                v2.push_back(Tracked(b));
                efp::swap(v1, v2);
                if (v1.size() != 1 || v2.size() != 5 || v1[0].get() != b || v2[4].get() != a + 4) bad("swap", "of vectors");
                efp::Enum<int, Tracked, std::string> e1 = Tracked(a), e2 = sb;
                efp::swap(e1, e2);
                if (e1.index() != 2 || e2.index() != 1 || e1.get<std::string>() != sb || e2.get<Tracked>().get() != a) bad("swap", "of enums");
                efp::Maybe<Tracked> m1 = efp::nothing, m2 = Tracked(b);
                efp::swap(m1, m2);
                if (!m1 || m2 || m1.value().get() != b) bad("swap", "of maybes");
                efp::String s3(sa.c_str()), s4(sb.c_str());
                efp::swap(s3, s4);
                if (sb != s3.c_str() || sa != s4.c_str()) bad("swap", "of efp strings");
            }
        }
        heap.stop();
        heap.expect_balanced(g_what.c_str());
        expect_no_live(g_what.c_str());
        count("class type cases");
        seen(mix(mix(5, static_cast<uint64_t>(a + 100)), static_cast<uint64_t>((b + 100) * 300 + x)));
    }
}

// ---------------------------------------------------------------- compile-time arithmetic and what the type functions say about calls
template<typename A, A a, A b> void ct_pair() {
    using namespace efp;
    const efp::CtConst<A, a> x {};
    const efp::CtConst<A, b> y {};
    g_what = "compile-time constants " + std::to_string(a) + " and " + std::to_string(b);
    begin_case(g_what);
    if ((x + y).value != static_cast<A>(a + b) || (x - y).value != static_cast<A>(a - b) || (x * y).value != static_cast<A>(a * b)) bad("CtConst", "arithmetic");
    if ((x / y).value != static_cast<A>(a / b)) bad("CtConst", "division");
    if ((x == y).value != (a == b) || (x != y).value != (a != b)) bad("CtConst", "comparison");
    if (efp::Maximum<efp::CtConst<A, a>, efp::CtConst<A, b>>::value != (a < b ? b : a) || efp::Mininum<efp::CtConst<A, a>, efp::CtConst<A, b>>::value != (a < b ? a : b)) bad("Maximum", "of two constants");
    if (efp::All<efp::Bool<(a > 2)>, efp::Bool<(b > 2)>>::value != (a > 2 && b > 2) || efp::Any<efp::Bool<(a > 2)>, efp::Bool<(b > 2)>>::value != (a > 2 || b > 2)) bad("All", "of two constants");
    count("compile-time constant pairs");
    seen(mix(mix(6, static_cast<uint64_t>(a)), static_cast<uint64_t>(b)));
}

struct NoDefault { explicit NoDefault(int) {} };
struct Over { int operator()(int) const { return 0; } void operator()(const std::string&) const {} };
#define SAY(...) if (!(__VA_ARGS__)) bad("traits", #__VA_ARGS__)

static void traits() {
    g_what = "type functions";
    begin_case(g_what);
    typedef int (*F2)(double, const std::string&);
    const auto lam = [](int&, Tracked&&, const char*) -> double { return 0; };
    auto mut = [](long) mutable noexcept {};
    SAY(std::is_same<efp::Arguments<F2>, efp::Tuple<double, const std::string&>>::value);
    SAY(std::is_same<efp::Arguments<decltype(lam)>, efp::Tuple<int&, Tracked&&, const char*>>::value);
    SAY(std::is_same<efp::Arguments<decltype(mut)&>, efp::Tuple<long>>::value);
    SAY(std::is_same<efp::Arguments<int (*)() noexcept>, efp::Tuple<>>::value);
    SAY(efp::IsInvocable<F2, int, const char*>::value && !efp::IsInvocable<F2, int>::value && !efp::IsInvocable<F2, int, int>::value);
    SAY(efp::IsInvocable<decltype(lam), int&, Tracked, const char*>::value && !efp::IsInvocable<decltype(lam), int, Tracked, const char*>::value);
    SAY(efp::IsInvocable<Over, int>::value && efp::IsInvocable<Over, const char*>::value && !efp::IsInvocable<Over>::value);
    SAY(std::is_same<efp::InvokeResult<Over, short>, int>::value && std::is_same<efp::InvokeResult<Over, std::string>, void>::value);
    SAY(std::is_same<efp::InvokeResult<Ref, int&>, int&>::value && std::is_same<efp::InvokeResult<F2, float, std::string>, int>::value);
    SAY(efp::IsInvocableR<long, Over, int>::value && !efp::IsInvocableR<std::string, Over, int>::value && efp::IsInvocableR<void, Over, int>::value && !efp::IsInvocableR<int, Over, std::string>::value && efp::IsInvocableR<void, Over, std::string>::value && !efp::IsInvocableR<void, Over, void*, int>::value);
    SAY(efp::IsDefaultConstructible<int>::value && efp::IsDefaultConstructible<Tracked>::value && efp::IsDefaultConstructible<MoveOnly>::value && !efp::IsDefaultConstructible<NoDefault>::value && !efp::IsDefaultConstructible<int&>::value);
    SAY(efp::IsConstructible<std::string, const char*>::value && !efp::IsConstructible<std::string, Tracked>::value && efp::IsConstructible<NoDefault, int>::value && !efp::IsConstructible<NoDefault>::value);
    SAY(std::is_same<efp::FuncToFuncPtr<int(char)>, int (*)(char)>::value && std::is_same<efp::FuncToFuncPtr<Over>, Over>::value);
    SAY(std::is_same<efp::PackAt<0, int, char, double>, int>::value && std::is_same<efp::PackAt<2, int, char, double>, double>::value && std::is_same<efp::PackAt<1, int, char, double>, char>::value);
    SAY(std::is_same<efp::TupleAt<1, efp::Tuple<int, std::string>>, std::string>::value);
    SAY(efp::Find<std::is_floating_point, int, char, double, float>::value == 2 && efp::Find<std::is_pointer, int*>::value == 0);
    SAY(std::is_same<efp::CVRefRemoved<const volatile int&>, int>::value && std::is_same<efp::ReferenceRemoved<const int&&>, const int>::value && std::is_same<efp::PointerRemoved<int* const>, int>::value && std::is_same<efp::ConstRemoved<int* const>, int*>::value);
    SAY(efp::HasCallOperator<decltype(lam)>::value && !efp::HasCallOperator<int>::value && !efp::HasCallOperator<Tracked>::value);
    SAY(efp::IsCtConst<efp::Int<3>>::value && efp::IsCtConst<efp::Size<3>&>::value && !efp::IsCtConst<int>::value);
    SAY(std::is_same<efp::Common<int, double, char>, double>::value && std::is_same<efp::Conditional<false, int, char>, char>::value);
    SAY(efp::Negation<efp::True>::value == false && efp::IsLvalueReference<int&>::value && !efp::IsLvalueReference<int&&>::value);
    SAY(std::is_same<efp::Prepend<int, efp::TypeList<char, long>>, efp::TypeList<int, char, long>>::value);
    // usable where a constant is needed
    enum { A = efp::op_add(2, 3), M = efp::min(7, 4), X = efp::max(7, 4), C = efp::clamp(1, 5, 9), S = efp::_sum({1, 2, 3}), Q = efp::_product({2, 3, 7}), I = efp::id(11) };
    SAY(A == 5 && M == 4 && X == 7 && C == 5 && S == 6 && Q == 42 && I == 11);
    count("type function statements", 24);
    seen(7);
}

int main(int argc, char** argv) {
    init(argc, argv);
    heap_install();
    const size_t n = scaled(20);
    Chain<KOwning>::run(n); Chain<KPlain>::run(n); Chain<KPtr>::run(n); Chain<KStd>::run(n);
    Chain<KOwning, KOwning>::run(n); Chain<KPlain, KOwning>::run(n); Chain<KPtr, KShared>::run(n); Chain<KTempl, KPtrNoex>::run(n); Chain<KStd, KNoex>::run(n);
    Chain<KOwning, KPtr, KOwning>::run(n); Chain<KShared, KStd, KTempl>::run(n); Chain<KOwning, KOwning, KOwning>::run(n); Chain<KPtr, KPtr, KPtr>::run(n);
    Chain<KOwning, KPlain, KStd, KShared>::run(n); Chain<KNoex, KTempl, KOwning, KPtr, KOwning>::run(n);
    Chain<KOwning, KStd, KShared, KPtr, KPlain, KTempl, KOwning, KNoex>::run(n);
    arguments(scaled(60));
    func_ptrs(scaled(60));
    arithmetic<signed char>("signed char", scaled(300)); arithmetic<unsigned char>("unsigned char", scaled(300)); arithmetic<short>("short", scaled(300));
    arithmetic<unsigned short>("unsigned short", scaled(300)); arithmetic<int>("int", scaled(300)); arithmetic<unsigned>("unsigned", scaled(300));
    arithmetic<long>("long", scaled(300)); arithmetic<unsigned long>("unsigned long", scaled(300)); arithmetic<long long>("long long", scaled(300));
    arithmetic<float>("float", scaled(300)); arithmetic<double>("double", scaled(300)); arithmetic<long double>("long double", scaled(300));
    class_types(scaled(200));
    ct_pair<int, 3, 4>(); ct_pair<int, -7, 2>(); ct_pair<int, 0, -1>(); ct_pair<size_t, 5, 5>(); ct_pair<size_t, 3000000000u, 3>(); ct_pair<long, -1, 1>(); ct_pair<size_t, 9, 2>();
    traits();
    sample(g_what);
    return finish();
}
