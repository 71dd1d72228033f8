// C05: match runs exactly one branch, the one overload resolution chooses, once, with the held value.
#include "efp.hpp"
#include "mon.hpp"

using namespace mon;

struct Call { int branch; int value; const void* arg; };
static std::vector<Call> g_log;

static int note_call(int branch, int value, const void* arg) {
    HeapPause hp;
    Call c = {branch, value, arg};
    g_log.push_back(c);
    return branch * 1000 + value;
}

template<size_t k> struct T { int v; unsigned char pad[1 + k % 7]; };
template<size_t... is> struct Idx {};
template<size_t n, size_t... is> struct MkIdx : MkIdx<n - 1, n - 1, is...> {};
template<size_t... is> struct MkIdx<0, is...> { typedef Idx<is...> type; };
template<typename I> struct MkEnum;
template<size_t... is> struct MkEnum<Idx<is...>> { typedef efp::Enum<T<is>...> type; };

// a branch for one alternative, by reference (even) or by value (odd)
template<size_t k> struct Br {
    int salt;
    int operator()(const T<k>& t) const { return note_call(static_cast<int>(k), t.v, &t) + salt; }
};
template<size_t k> struct BrV {
    int salt;
    int operator()(T<k> t) const { return note_call(static_cast<int>(k), t.v, nullptr) + salt; }
};
struct Wild {
    int salt;
    int operator()() const { return note_call(-1, 0, nullptr) + salt; }
};
// accepts several alternatives by a constrained template
template<size_t lo, size_t hi> struct Span {
    int salt;
    template<size_t k, typename = typename std::enable_if<(k >= lo && k < hi)>::type>
    int operator()(const T<k>& t) const { return note_call(static_cast<int>(k), t.v, &t) + salt; }
};

// checks the one call the last match made
static void verdict(const std::string& what, int ret, int want_branch, int want_value, const void* want_arg, int salt) {
    count("matches");
    if (g_log.size() != 1) {
        violation("match:calls", sf("%s: %zu branches ran", what.c_str(), g_log.size()));
    } else {
        const Call& c = g_log[0];
        if (c.branch != want_branch) violation("match:branch", sf("%s: branch %d ran, expected %d", what.c_str(), c.branch, want_branch));
        else if (c.value != want_value) violation("match:value", sf("%s: value %d, expected %d", what.c_str(), c.value, want_value));
        else if (c.arg && want_arg && c.arg != want_arg) violation("match:argument", what + ": the branch saw another object than the one held");
        else if (ret != want_branch * 1000 + want_value + salt) violation("match:result", sf("%s: result %d", what.c_str(), ret));
    }
    HeapPause hp;
    g_log.clear();
}

enum Form { ALL_REF, ALL_VALUE, SPARSE_WILD, FIRST_WILD, LAST_WILD, SPANS };

template<size_t N>
struct Arity {
    typedef typename MkEnum<typename MkIdx<N>::type>::type E;
    template<size_t... is> static int all_ref(const E& e, int s, Idx<is...>) { return e.match(Br<is>{s}...); }
    template<size_t... is> static int all_rev(const E& e, int s, Idx<is...>) { return e.match(Br<N - 1 - is>{s}...); }
    template<size_t... is> static int all_val(const E& e, int s, Idx<is...>) { return e.match(BrV<is>{s}...); }
    template<size_t... is> static int sparse(const E& e, int s, Idx<is...>) { return e.match(Br<3 * is>{s}..., Wild{s}); }

    template<size_t i>
    static E make(int v) {
        T<i> t;
        t.v = v;
        std::memset(t.pad, static_cast<int>(i), sizeof t.pad);
        return E(t);
    }
    template<size_t i>
    static void one(Rng& r, bool full) {
        const int v = r.range(1, 900), salt = r.range(0, 50) * 1000000;
        begin_case(sf("arity %zu position %zu", N, i));
        const E e = make<i>(v);
        const void* p = &e.template get<T<i>>();
        const int b = static_cast<int>(i);
        if (full) {
            int x = Full<(N <= 70)>::ref(e, salt);
            verdict(sf("arity %zu position %zu all branches", N, i), x, b, v, p, salt);
            x = Full<(N <= 33)>::rev(e, salt);
            verdict(sf("arity %zu position %zu reversed branches", N, i), x, b, v, p, salt);
            x = Full<(N <= 33)>::val(e, salt);
            verdict(sf("arity %zu position %zu by value", N, i), x, b, v, nullptr, salt);
        }
        if (N > 1) {
            int x = Wide<(N > 1)>::sparse(e, salt);
            const bool own = i % 3 == 0 && i < 9;
            verdict(sf("arity %zu position %zu wildcard", N, i), x, own ? b : -1, own ? v : 0, own ? p : nullptr, salt);
            x = Wide<(N > 1)>::last(e, salt);
            verdict(sf("arity %zu position %zu last and wildcard", N, i), x, i == N - 1 ? b : -1, i == N - 1 ? v : 0, i == N - 1 ? p : nullptr, salt);
            x = Wide<(N > 1)>::spans(e, salt);
            verdict(sf("arity %zu position %zu two spans", N, i), x, b, v, p, salt);
        }
        seen(mix(N * 1000 + i, 7));
    }
    template<bool on, int = 0> struct Full {
        static int ref(const E& e, int s) { return all_ref(e, s, typename MkIdx<N>::type()); }
        static int rev(const E& e, int s) { return all_rev(e, s, typename MkIdx<N>::type()); }
        static int val(const E& e, int s) { return all_val(e, s, typename MkIdx<N>::type()); }
    };
    template<int x> struct Full<false, x> {  // the larger ones: one template branch stands for all
        static int ref(const E& e, int s) { return e.match(Span<0, N>{s}); }
        static int rev(const E& e, int s) { return e.match(Span<0, N>{s}); }
        static int val(const E& e, int s) { return e.match(Span<0, N>{s}); }
    };
    template<bool on, int = 0> struct Wide {
        static int sparse(const E& e, int s) { return Arity::sparse(e, s, typename MkIdx<(N + 2) / 3 < 3 ? (N + 2) / 3 : 3>::type()); }
        static int last(const E& e, int s) { return e.match(Br<N - 1>{s}, Wild{s}); }
        static int spans(const E& e, int s) { return e.match(Span<N / 2, N>{s}, Span<0, N / 2>{s}); }
    };
    template<int x> struct Wide<false, x> {
        static int sparse(const E&, int) { return 0; }
        static int last(const E&, int) { return 0; }
        static int spans(const E&, int) { return 0; }
    };
    template<size_t... is> static void each(Rng& r, Idx<is...>) {
        int d[] = {(one<is>(r, true), 0)...};
        (void)d;
    }
    static void all() {
        Rng r(st().seed * 31 + N);
        for (int k = 0; k < 3; ++k) each(r, typename MkIdx<N>::type());
        count("arities");
    }
};

// ---- overload resolution: the same overloads written in one class are the oracle
struct Base { int b; };
struct Derived : Base {};
struct Other {
    int o;
    operator double() const { return o; }
};
typedef efp::Enum<int, double, char, std::string, Base, Derived, Other, short, bool> Mix;
struct MixModel { int idx; };

struct W0 { int operator()() const { return note_call(-1, 0, nullptr); } };
struct FInt { int operator()(int) const { return note_call(1, 0, nullptr); } };
struct FDouble { int operator()(double) const { return note_call(2, 0, nullptr); } };
struct FStr { int operator()(const std::string&) const { return note_call(3, 0, nullptr); } };
struct FBase { int operator()(const Base&) const { return note_call(4, 0, nullptr); } };
struct FDer { int operator()(const Derived&) const { return note_call(5, 0, nullptr); } };
struct FShort { int operator()(const short&) const { return note_call(7, 0, nullptr); } };
struct FChar { int operator()(char) const { return note_call(6, 0, nullptr); } };
struct FArith {
    template<typename A, typename = typename std::enable_if<std::is_arithmetic<A>::value>::type>
    int operator()(const A&) const { return note_call(8, 0, nullptr); }
};
struct FGen { template<typename A> int operator()(const A&) const { return note_call(9, 0, nullptr); } };

// reference overload sets (plain classes)
#define R(type, id) int operator()(type) const { return id; }
struct Any { template<typename A> int operator()(A&&) const { return -1; } };
struct RefExact { R(int, 1) R(double, 2) R(const std::string&, 3) R(const Base&, 4) R(const Derived&, 5)
    template<typename A> int operator()(A&&) const { return -1; } };
struct RefFew { R(double, 2) R(const Base&, 4) template<typename A> int operator()(A&&) const { return -1; } };
struct RefConv { R(double, 2) R(const std::string&, 3) R(const Base&, 4) };
struct RefDer { R(int, 1) R(double, 2) R(const std::string&, 3) R(const Base&, 4) R(const Derived&, 5) };
struct RefArith { R(const short&, 7) template<typename A, typename = typename std::enable_if<std::is_arithmetic<A>::value>::type>
    int operator()(const A&) const { return 8; } R(const std::string&, 3) R(const Base&, 4) template<typename A> int operator()(A&&) const { return -1; } };
struct RefGen { R(char, 6) R(const Derived&, 5) template<typename A> int operator()(const A&) const { return 9; } };
#undef R

template<typename F>
static void arrangement(const char* name, const Mix& e, int want, const F& run) {
    begin_case(sf("overloads %s alternative %d", name, static_cast<int>(e.index())));
    const int got = run(e);
    count("matches");
    if (g_log.size() != 1) violation("overload:calls", sf("%s alternative %d: %zu branches ran", name, static_cast<int>(e.index()), g_log.size()));
    else if (g_log[0].branch != want) violation("overload:branch", sf("%s alternative %d: branch %d ran, overload resolution chooses %d", name, static_cast<int>(e.index()), g_log[0].branch, want));
    else if (got != want * 1000) violation("overload:result", name);
    g_log.clear();
    seen(mix(e.index(), std::hash<std::string>()(name)));
}

template<typename A>
static void overloads_for(const A& a) {
    const Mix e(a);
    const A& c = a;
    arrangement("exact+wild", e, RefExact()(c), [](const Mix& m) { return m.match(FInt(), FDouble(), FStr(), FBase(), FDer(), W0()); });
    arrangement("exact+wild, reordered", e, RefExact()(c), [](const Mix& m) { return m.match(FDer(), FStr(), FBase(), FDouble(), FInt(), W0()); });
    arrangement("few+wild", e, RefFew()(c), [](const Mix& m) { return m.match(FBase(), FDouble(), W0()); });
    arrangement("conversions only", e, RefConv()(c), [](const Mix& m) { return m.match(FStr(), FBase(), FDouble()); });
    arrangement("derived and base", e, RefDer()(c), [](const Mix& m) { return m.match(FBase(), FDer(), FInt(), FDouble(), FStr()); });
    arrangement("derived and base, reordered", e, RefDer()(c), [](const Mix& m) { return m.match(FDouble(), FInt(), FDer(), FStr(), FBase()); });
    arrangement("templates", e, RefArith()(c), [](const Mix& m) { return m.match(FArith(), FShort(), FStr(), FBase(), W0()); });
    arrangement("generic", e, RefGen()(c), [](const Mix& m) { return m.match(FChar(), FDer(), FGen()); });
    arrangement("generic first", e, RefGen()(c), [](const Mix& m) { return m.match(FGen(), FDer(), FChar()); });
}

// ---- results, state, nesting, const/mutable/temporary operands, void and tracked results
static void semantics(size_t n) {
    typedef efp::Enum<int, std::string, Tracked, efp::Vector<int>> E;
    for (size_t k = 0; k < scaled(n); ++k) {
        Rng r(st().seed * 77 + k);
        begin_case("semantics");
        HeapScope heap;
        uint64_t h = 0;
        {
            E e, f;
            int ei = 0, ev = 0;
            for (int q = 0; q < 12; ++q) {
                const int which = r.range(0, 3), v = r.range(1, 99);
                h = mix(h, static_cast<uint64_t>(which));
                if (which == 0) e = v;
                if (which == 1) e = Val<std::string>::make(v);
                if (which == 2) e = Tracked(v);
                if (which == 3) { efp::Vector<int> w; w.push_back(v); e = w; }
                ei = which; ev = v;
                int calls = 0, got = -1, kind = -1;
                // void branches, state captured by reference
                e.match(
                    [&](int x) { ++calls; got = x; kind = 0; },
                    [&](const std::string& s) { ++calls; got = Val<std::string>::get(s); kind = 1; },
                    [&](const Tracked& t) { ++calls; got = t.get(); kind = 2; },
                    [&](const efp::Vector<int>& w) { ++calls; got = w.size() == 1 ? w[0] : -5; kind = 3; });
                if (calls != 1 || kind != ei || got != ev) violation("match:void", sf("%d calls, branch %d value %d, expected branch %d value %d", calls, kind, got, ei, ev));
                // a result with a lifetime, from a const operand and from a temporary
                const E& c = e;
                const Tracked res = c.match(
                    [&](int x) { return Tracked(x + 1); },
                    [&](const Tracked& t) { return t; },
                    [&]() { return Tracked(-4); });
                const int want = ei == 0 ? ev + 1 : ei == 2 ? ev : -4;
                if (res.get() != want) violation("match:result", sf("result %d, expected %d", res.get(), want));
                const std::string s2 = E(e).match(
                    [](int x) { return std::to_string(x); },
                    [](const std::string& s) { return s; },
                    []() { return std::string("wild, a longer one that is allocated"); });
                const std::string w2 = ei == 0 ? std::to_string(ev) : ei == 1 ? Val<std::string>::make(ev) : std::string("wild, a longer one that is allocated");
                // branches that do not throw, and say so
                const int nx = c.match([](int x) noexcept { return x; }, [](const Tracked& t) noexcept { return t.get(); }, []() noexcept { return -8; });
                if (nx != (ei == 0 || ei == 2 ? ev : -8)) violation("match:noexcept", sf("%d from branches marked noexcept, alternative %d holds %d", nx, ei, ev));
                if (s2 != w2) violation("match:result", "temporary operand gives " + s2 + " instead of " + w2);
                // nested
                f = e;
                const int nest = e.match(
                    [&](int x) { return f.match([&](int y) { return x + y; }, [&]() { return -1; }); },
                    [&](const Tracked& t) { return f.match([&](const Tracked& u) { return &t == &u ? -2 : t.get() + u.get(); }, [&]() { return -1; }); },
                    [&]() { return f.match([&](const std::string& s) { return Val<std::string>::get(s); }, [&]() { return -7; }); });
                const int wn = ei == 0 || ei == 2 ? 2 * ev : ei == 1 ? ev : -7;
                if (nest != wn) violation("match:nested", sf("%d, expected %d", nest, wn));
                // a throwing branch passes through and changes nothing
                bool thrown = false;
                try {
                    e.match([&](int) -> int { throw 5; }, [&]() -> int { throw 6; });
                } catch (int x) { thrown = x == (ei == 0 ? 5 : 6); }
                if (!thrown || e.index() != ei || !(e == f)) violation("match:throw", "a throwing branch");
                count("matches", 6);
            }
        }
        heap.stop();
        heap.expect_balanced("semantics");
        expect_no_live("semantics");
        seen(h);
    }
}

int main(int argc, char** argv) {
    init(argc, argv);
    heap_install();
    g_log.reserve(16);
#ifndef BIG
    Arity<1>::all(); Arity<2>::all(); Arity<3>::all(); Arity<4>::all(); Arity<5>::all(); Arity<6>::all(); Arity<7>::all();
    Arity<8>::all(); Arity<9>::all(); Arity<10>::all(); Arity<15>::all(); Arity<16>::all(); Arity<17>::all();
    for (int k = 0; k < 3; ++k) {
        overloads_for(3); overloads_for(2.5); overloads_for('c'); overloads_for(std::string("s"));
        { Base b = {1}; overloads_for(b); }
        { Derived d; d.b = 1; overloads_for(d); }
        { Other o = {4}; overloads_for(o); }
        overloads_for(static_cast<short>(3)); overloads_for(true);
    }
    semantics(300);
#else
    Arity<11>::all(); Arity<24>::all(); Arity<31>::all(); Arity<32>::all(); Arity<33>::all();
    Arity<63>::all(); Arity<64>::all(); Arity<65>::all(); Arity<100>::all(); Arity<127>::all(); Arity<128>::all();
#endif
    sample(sf("%zu arity/position cases; last arity ran every branch position", static_cast<size_t>(st().evaluations)));
    return finish();
}
