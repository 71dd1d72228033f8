// C19: Tuple and Pair.
#include "efp.hpp"
#include "mon.hpp"

using namespace mon;
typedef std::vector<int> Model;

struct Empty { bool operator==(const Empty&) const { return true; } };
struct OnlyEq { int v; bool operator==(const OnlyEq& o) const { return v == o.v; } };   // no operator!=
static int plus0(int x) { return x; }
static int plus1(int x) { return x + 1; }
static int plus2(int x) { return x + 2; }
static int plus3(int x) { return x + 3; }
typedef int (*Fn)(int);
static Fn fn(int i) { static const Fn f[] = {plus0, plus1, plus2, plus3}; return f[i & 3]; }

namespace mon {
template<> struct Val<Empty> { static Empty make(int) { return Empty(); } static int get(const Empty&) { return 0; } static int norm(int) { return 0; } static const char* name() { return "Empty"; } };
template<> struct Val<OnlyEq> { static OnlyEq make(int v) { OnlyEq o = {v}; return o; } static int get(const OnlyEq& o) { return o.v; } static const char* name() { return "OnlyEq"; } };
template<> struct Val<Fn> { static Fn make(int v) { return fn(v); } static int get(Fn f) { return f(0); } static int norm(int v) { return v & 3; } static const char* name() { return "int(*)(int)"; } };
template<> struct Val<bool> { static bool make(int v) { return v & 1; } static int get(bool b) { return b; } static int norm(int v) { return v & 1; } static const char* name() { return "bool"; } };
template<> struct Val<short> { static short make(int v) { return static_cast<short>(v); } static int get(short b) { return b; } static const char* name() { return "short"; } };
template<> struct Val<float> { static float make(int v) { return static_cast<float>(v) / 4; } static int get(float b) { return static_cast<int>(b * 4); } static const char* name() { return "float"; } };
template<> struct Val<efp::String> { static efp::String make(int v) { return efp::String(std::to_string(v).c_str()); } static int get(const efp::String& s) { return std::atoi(std::string(s.data(), s.size()).c_str()); } static const char* name() { return "String"; } };
template<typename T> struct Val<efp::Vector<T>> {
    static efp::Vector<T> make(int v) { efp::Vector<T> r; for (int i = 0; i < 3; ++i) r.push_back(Val<T>::make(v)); return r; }
    static int get(const efp::Vector<T>& s) { return s.size() == 3 && Val<T>::get(s[0]) == Val<T>::get(s[2]) ? Val<T>::get(s[1]) : -5; }
    static const char* name() { return "Vector"; }
};
template<typename T> struct Val<efp::ArrVec<T, 4>> {
    static efp::ArrVec<T, 4> make(int v) { efp::ArrVec<T, 4> r; r.push_back(Val<T>::make(v)); return r; }
    static int get(const efp::ArrVec<T, 4>& s) { return s.size() == 1 ? Val<T>::get(s[0]) : -5; }
    static const char* name() { return "ArrVec"; }
};
template<typename T> struct Val<efp::Enum<efp::Nothing, T>> {
    static efp::Maybe<T> make(int v) { if (v % 5 == 0) return efp::nothing; return Val<T>::make(v); }
    static int get(const efp::Maybe<T>& m) { return m ? Val<T>::get(m.value()) : 0; }
    static int norm(int v) { return v % 5 == 0 ? 0 : v; }
    static const char* name() { return "Maybe"; }
};
template<typename A, typename B> struct Val<efp::Tuple<A, B>> {
    static efp::Tuple<A, B> make(int v) { return efp::Tuple<A, B>(Val<A>::make(v), Val<B>::make(v + 1)); }
    static int get(const efp::Tuple<A, B>& t) { return efp::get<1>(t) == Val<B>::make(Val<A>::get(efp::get<0>(t)) + 1) ? Val<A>::get(efp::get<0>(t)) : -5; }
    static const char* name() { return "Tuple"; }
};
template<> struct Val<efp::Tuple<>> { static efp::Tuple<> make(int) { return efp::Tuple<>(); } static int get(const efp::Tuple<>&) { return 0; } static int norm(int) { return 0; } static const char* name() { return "Tuple<>"; } };
}  // namespace mon

// what make(v) reads back as
template<typename T> auto norm_(int v, int) -> decltype(Val<T>::norm(v)) { return Val<T>::norm(v); }
template<typename T> int norm_(int v, long) { return v; }
template<typename T> int norm(int v) { return norm_<T>(v, 0); }

static std::string g_what;
static void bad(const std::string& f, const std::string& d) { violation(f, g_what + ": " + d); }

template<size_t... is> struct Idx {};
template<size_t n, size_t... is> struct MkIdx : MkIdx<n - 1, n - 1, is...> {};
template<size_t... is> struct MkIdx<0, is...> { typedef Idx<is...> type; };

// records the call: how often, which objects, which values
struct Log { int calls; std::vector<const void*> at; Model v; Log() : calls(0) {} };
struct Spy {
    Log* log;
    template<typename... As> int operator()(const As&... as) const {
        ++log->calls;
        log->at = std::vector<const void*>{static_cast<const void*>(std::addressof(as))...};
        log->v = Model{Val<As>::get(as)...};
        return 100 + static_cast<int>(sizeof...(As));
    }
};
struct FirstRef { template<typename A, typename... As> const A& operator()(const A& a, const As&...) const { return a; } };
struct Thrower { int* calls; template<typename... As> int operator()(const As&...) const { ++*calls; throw 7; } };

template<typename... Ts> struct On {
    typedef efp::Tuple<Ts...> T;
    enum : size_t { N = sizeof...(Ts) };
    typedef typename MkIdx<sizeof...(Ts)>::type Is;

    static std::string name() { const char* n[] = {Val<Ts>::name()..., ""}; std::string s = "Tuple<"; for (size_t i = 0; i < N; ++i) s += std::string(i ? "," : "") + n[i]; return s + ">"; }
    template<size_t... is> static Model normed(const Model& m, Idx<is...>) { return Model{norm<Ts>(m[is])...}; }
    template<size_t... is> static Model read(const T& t, Idx<is...>) { return Model{Val<Ts>::get(efp::get<is>(t))...}; }
    template<size_t... is> static Model read2(const T& t, Idx<is...>) { return Model{Val<Ts>::get(t.template get<is>())...}; }
    template<size_t... is> static Model read3(T& t, Idx<is...>) { return Model{Val<Ts>::get(efp::p<is>(t))...}; }
    template<size_t... is> static std::vector<const void*> places(const T& t, Idx<is...>) { return std::vector<const void*>{static_cast<const void*>(std::addressof(efp::get<is>(t)))...}; }
    template<size_t... is> static std::vector<size_t> sizes(Idx<is...>) { return std::vector<size_t>{sizeof(Ts)...}; }
    template<size_t... is> static std::vector<size_t> aligns(Idx<is...>) { return std::vector<size_t>{alignof(Ts)...}; }
    template<size_t... is> static T& build(Slot<T>& s, const Model& m, unsigned char fill, Idx<is...>) { return s.adopt(new (s.fresh(fill)) T(Val<Ts>::make(m[is])...)); }
    static T& build(Slot<T>& s, const Model& m, Rng& r) { return build(s, m, static_cast<unsigned char>(r.next()), Is()); }
    static Model see(const T& t) { return read(t, Is()); }

    template<size_t i> struct At {
        typedef efp::TupleAt<i, T> A;
        static void all(T& t, const Model& m, Rng& r) {
            static_assert(std::is_same<decltype(efp::get<i>(t)), A&>::value, "get");
            static_assert(std::is_same<decltype(efp::get<i>(static_cast<const T&>(t))), const A&>::value, "const get");
            static_assert(std::is_same<decltype(efp::p<i>(t)), A&>::value, "p");
            const T& c = t;
            const void* a = std::addressof(efp::get<i>(c));
            if (std::addressof(efp::get<i>(t)) != a || std::addressof(t.template get<i>()) != a || std::addressof(c.template get<i>()) != a || std::addressof(efp::p<i>(t)) != a || std::addressof(efp::p<i>(c)) != a)
                bad("reference", sf("the ways to reach component %zu give different objects", i));
            // a write changes this component only
            Model want = m;
            const int v = m[i] + 1 + static_cast<int>(r.below(3));
            T before = t;
            switch (r.below(3)) {
                case 0: efp::get<i>(t) = Val<A>::make(v); break;
                case 1: efp::p<i>(t) = Val<A>::make(v); break;
                default: t.template get<i>() = Val<A>::make(v);
            }
            want[i] = v;
            want = normed(want, Is());
            if (see(t) != want) bad("write", sf("to component %zu: ", i) + show(see(t)) + " instead of " + show(want));
            if (see(before) != normed(m, Is())) bad("copy", "changed with its source");
            const bool differs = want[i] != normed(m, Is())[i];
            if ((t == before) != !differs || (t != before) != differs || (before == t) != !differs) bad("equality", sf("tuples that %s in component %zu", differs ? "differ" : "agree", i));
            count(differs ? "comparisons of tuples that differ in one component" : "comparisons of equal tuples");
            efp::get<i>(t) = efp::get<i>(before);
            if (!(t == before) || t != before) bad("equality", sf("after component %zu was set back", i));
            At<i + 1 == N ? ~size_t(0) : i + 1>::all(t, m, r);
        }
    };


    static void round(Rng& r) {
        Model m(N);
        for (size_t i = 0; i < N; ++i) m[i] = r.range(1, 99);
        g_what = name() + show(m);
        begin_case(g_what);
        HeapScope heap;
        {
            Slot<T> slot;
            T& t = build(slot, m, r);
            const Model want = normed(m, Is());
            if (read(t, Is()) != want || read2(t, Is()) != want || read3(t, Is()) != want) bad("components", show(see(t)) + " instead of " + show(want));
            // components are disjoint, aligned objects inside the tuple
            const std::vector<const void*> at = places(t, Is());
            const std::vector<size_t> size = sizes(Is()), align = aligns(Is());
            const char* lo = reinterpret_cast<const char*>(&t);
            for (size_t i = 0; i < N; ++i) {
                const char* a = static_cast<const char*>(at[i]);
                if (a < lo || a + size[i] > lo + sizeof(T)) bad("layout", "a component lies outside the tuple");
                if (reinterpret_cast<uintptr_t>(a) % align[i]) bad("layout", "a component is misaligned");
                for (size_t j = 0; j < i; ++j) {
                    const char* b = static_cast<const char*>(at[j]);
                    if (a < b + size[j] && b < a + size[i]) bad("layout", "two components overlap");
                }
            }
            // match
            {
                Log log;
                const int n = t.match(Spy{&log});
                if (n != 100 + static_cast<int>(N)) bad("match", "returns something else than the function");
                if (log.calls != 1) bad("match", sf("calls the function %d times", log.calls));
                if (log.v != want) bad("match", "passes " + show(log.v));
                if (log.at != at) bad("match", "passes objects that are not the components");
                int calls = 0;
                bool caught = false;
                try { t.match(Thrower{&calls}); } catch (int x) { caught = x == 7; }
                if (!caught || calls != 1) bad("match", "does not pass an exception on");
            }
            walk(t, m, r, std::integral_constant<bool, (N > 0)>());
            // copies and moves
            {
                T copy(t);
                if (see(copy) != want || see(t) != want || !(copy == t)) bad("copy", "differs from its source");
                T moved(efp::move(copy));
                if (see(moved) != want) bad("move", "construction gives " + show(see(moved)));
                Model other(N);
                for (size_t i = 0; i < N; ++i) other[i] = r.range(1, 99);
                Slot<T> s2;
                T& u = build(s2, other, r);
                if ((u == t) != (normed(other, Is()) == want) || (u != t) == (u == t)) bad("equality", "with " + show(other));
                T* self = &u;
                u = *self;
                if (see(u) != normed(other, Is())) bad("self-assignment", show(see(u)));
                u = t;
                if (see(u) != want || see(t) != want) bad("assignment", show(see(u)));
                u = efp::move(moved);
                if (see(u) != want) bad("move", "assignment gives " + show(see(u)));
                moved = t;
                if (see(moved) != want) bad("assignment", "to a moved-from tuple");
                efp::swap(u, moved);
                if (see(u) != want || see(moved) != want) bad("swap", "loses a component");
            }
            if (see(t) != want) bad("components", "changed in the course of copying");
        }
        heap.stop();
        heap.expect_balanced(g_what.c_str());
        expect_no_live(g_what.c_str());
        uint64_t h = std::hash<std::string>()(name());
        for (int v : m) h = mix(h, static_cast<uint64_t>(v));
        seen(h);
    }
    static void walk(T&, const Model&, Rng&, std::false_type) {}
    static void walk(T& t, const Model& m, Rng& r, std::true_type) {
        At<0>::all(t, m, r);
        if (std::addressof(efp::fst(t)) != std::addressof(efp::get<0>(t)) || std::addressof(efp::fst(static_cast<const T&>(t))) != std::addressof(efp::get<0>(t))) bad("fst", "is not component 0");
        if (std::addressof(t.match(FirstRef())) != std::addressof(efp::get<0>(t))) bad("match", "returns a copy of a reference");
        second(t, std::integral_constant<bool, (N > 1)>());
    }
    static void second(T&, std::false_type) {}
    template<typename U> static void second(U& t, std::true_type) {
        if (static_cast<const void*>(std::addressof(efp::snd(t))) != static_cast<const void*>(std::addressof(efp::get<1>(t))) || std::addressof(efp::snd(static_cast<const U&>(t))) != std::addressof(efp::get<1>(t))) bad("snd", "is not component 1");
    }
    static void run(size_t n) {
        if (!wanted(name())) return;
        for (size_t t = 0; t < scaled(n); ++t) {
            Rng r(mix(st().seed * 53 + t, std::hash<std::string>()(name())));
            round(r);
        }
        count("arity " + std::to_string(N), scaled(n));
    }
};

// the recursion ends at index -1
#define STOP(...) template<> template<> struct On<__VA_ARGS__>::At<~size_t(0)> { template<typename T> static void all(T&, const Model&, Rng&) {} };

static int add3(int a, int b, int c) { return a * 100 + b * 10 + c; }
static double mixed(const std::string& s, int i) { return static_cast<double>(s.size()) + i / 8.0; }

static void makers(size_t n) {
    Rng r(st().seed * 59);
    for (size_t t = 0; t < scaled(n); ++t) {
        const int a = r.range(1, 9), b = r.range(1, 9), c = r.range(1, 9);
        g_what = sf("makers %d %d %d", a, b, c);
        begin_case(g_what);
        HeapScope heap;
        {
            const auto x = efp::tuple(a, std::string("a string that is not short at all"), Tracked(c));
            static_assert(std::is_same<decltype(x), const efp::Tuple<int, std::string, Tracked>>::value, "tuple");
            if (efp::get<0>(x) != a || efp::get<1>(x).size() != 33 || efp::get<2>(x).get() != c) bad("tuple", "wrong components");
            if (efp::tuple(a, b, c).match(add3) != add3(a, b, c)) bad("match", "with a function");
            if (efp::tuple(a, b, c).match(&add3) != add3(a, b, c)) bad("match", "with a function pointer");
            if (efp::tuple(a, b, c).match([&](int p, int q, int s) { return p * q * s + a; }) != a * b * c + a) bad("match", "with a closure");
            if (efp::tuple(std::string(static_cast<size_t>(a), 'x'), b).match(mixed) != a + b / 8.0) bad("match", "with mixed components");
            if (efp::tuple().match([&] { return b; }) != b) bad("match", "of the empty tuple");
            // a function becomes a function pointer
            const auto f = efp::tuple(add3, plus1, a);
            if (efp::get<0>(f)(a, b, c) != add3(a, b, c) || efp::get<1>(f)(a) != a + 1 || efp::get<2>(f) != a) bad("tuple", "with functions");
            efp::Pair<int, Tracked> p(a, Tracked(b));
            efp::fst(p) = c;
            if (efp::fst(p) != c || efp::snd(p).get() != b) bad("Pair", "fst and snd");
            efp::snd(p).set(a);
            if (efp::fst(p) != c || efp::snd(p).get() != a) bad("Pair", "fst and snd");
            // not-a-number is not equal to itself
            const double nan = std::numeric_limits<double>::quiet_NaN();
            const auto na = efp::tuple(a, nan);
            const auto nb = efp::tuple(nan, a);
            if (na == na || !(na != na) || nb == nb || !(nb != nb)) bad("equality", "of tuples with a NaN");
            if (!(efp::tuple(0.0, a) == efp::tuple(-0.0, a))) bad("equality", "of zeros");
            // tuples in sequences
            efp::Vector<efp::Tuple<int, Tracked>> v;
            for (int i = 0; i < 9; ++i) v.push_back(efp::tuple(i, Tracked(i * a)));
            v.erase(2);
            v.insert(1, efp::tuple(77, Tracked(b)));
            const auto w = v;
            for (size_t i = 0; i < w.size(); ++i) {
                const int id = efp::get<0>(w[i]);
                if (efp::get<1>(w[i]).get() != (id == 77 ? b : id * a)) bad("sequence", "of tuples");
            }
            if (!(w == v)) bad("equality", "of sequences of tuples");
        }
        heap.stop();
        heap.expect_balanced(g_what.c_str());
        expect_no_live(g_what.c_str());
        seen(mix(5, static_cast<uint64_t>(a * 100 + b * 10 + c)));
    }
}

typedef efp::Vector<Tracked> VT;
typedef efp::Maybe<Tracked> MT;
typedef efp::Tuple<int, Tracked> TT;

#define LISTS(X)                                                                                   \
    X(int) X(Tracked) X(std::string) X(Empty)                                                      \
    X(int, int) X(Tracked, Tracked) X(int, Tracked) X(std::string, std::string) X(Empty, Empty) X(uint8_t, double) X(OnlyEq, OnlyEq) \
    X(Tracked, Tracked, Tracked) X(int, std::string, Tracked) X(Empty, int, Empty) X(char, double, char) X(Fn, int, Fn) X(Odd, Tracked, Odd) X(float, OnlyEq, bool) \
    X(VT, MT, TT) X(efp::String, VT, int) X(MT, MT) X(TT, TT) X(efp::Tuple<>, int) X(efp::ArrVec<int COMMA 4>, efp::Vector<int>) \
    X(CopyOnly, Tracked, CopyOnly, int) X(Aligned<64>, char, Aligned<64>) X(uint8_t, short, int, double, char) X(bool, bool, bool, bool, bool, bool) \
    X(int, Tracked, std::string, double, Odd, Empty, Fn, short)                                    \
    X(int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int)              \
    X(Tracked, int, Tracked, int, Tracked, int, Tracked, int, Tracked, int, Tracked, int, Tracked)
#define COMMA ,
LISTS(STOP)

int main(int argc, char** argv) {
    init(argc, argv);
    heap_install();
#define RUN(...) On<__VA_ARGS__>::run(20);
    On<>::run(2);
    LISTS(RUN)
    makers(40);
    sample(g_what);
    return finish();
}
