// C21: an exception from user code passes through unchanged and leaves no leak and no broken object.
#include <functional>

#include "seqs.hpp"

using namespace mon;

#ifndef SLICE
#define SLICE 0
#endif

static std::string g_what;
static void bad(const std::string& key, const std::string& d) { violation(key, g_what + ": " + d); }

// ---------------------------------------------------------------- the fault injector: user code calls tick()
struct Boom { int serial; Tracked t; explicit Boom(int s) : serial(s), t(s) {} };   // thrown by value, itself instrumented
static long g_calls = 0;          // calls of user code
static long g_at = 0;             // the call that throws, 0: none
static int g_serial = 0;          // of the exception thrown last
static bool g_thrown = false;

static void tick() {
    if (++g_calls != g_at) return;
    g_thrown = true;
    ++g_serial;
    switch (g_serial % 3) {
        case 0: throw Boom(g_serial);
        case 1: throw std::runtime_error("an exception message long enough to be allocated, number " + std::to_string(g_serial));
        default: throw g_serial;
    }
}

// runs body with the fault armed; says whether exactly that exception arrived
template<typename F>
static bool caught(const char* op, const F& body) {
    int got = -1;
    try {
        body();
    } catch (const Boom& b) {
        got = b.serial % 3 == 0 && b.t.get() == b.serial ? b.serial : -2;
    } catch (const std::runtime_error& e) {
        HeapPause hp;
        const std::string w = e.what();
        const size_t at = w.rfind(' ');
        got = at != std::string::npos && w.compare(0, at, "an exception message long enough to be allocated, number") == 0 ? std::atoi(w.c_str() + at) : -3;
    } catch (int s) {
        got = s % 3 == 2 ? s : -4;
    } catch (...) {
        got = -5;
    }
    if (!g_thrown) { if (got != -1) bad(std::string("other-exception:") + op, "an exception nobody threw"); return false; }
    if (got == -1) bad(std::string("swallowed:") + op, sf("the exception thrown by call %ld did not reach the caller", g_at));
    else if (got != g_serial) bad(std::string("changed:") + op, sf("the exception thrown by call %ld arrived changed (%d)", g_at, got));
    if (g_calls != g_at) bad(std::string("called-on:") + op, sf("user code was called %ld times after call %ld threw", g_calls - g_at, g_at));
    return true;
}

// which calls throw: all of a few, otherwise the ends and a sample
static std::vector<long> targets(long n, Rng& r) {
    std::vector<long> t;
    if (n <= 24) { for (long i = 1; i <= n; ++i) t.push_back(i); return t; }
    for (long i = 1; i <= 6; ++i) { t.push_back(i); t.push_back(n + 1 - i); }
    for (int i = 0; i < 12; ++i) t.push_back(1 + static_cast<long>(r.below(static_cast<size_t>(n))));
    return t;
}

static uint64_t digest(const Model& m) { uint64_t h = 5; for (int v : m) h = mix(h, static_cast<uint64_t>(v)); return mix(h, m.size()); }
template<typename S> static uint64_t dg(const S& s) { HeapPause hp; return digest(shown(s)); }

// A function that only reads its inputs: body() returns a digest of the result, intact() judges the inputs.
template<typename F, typename G>
static void sweep(const char* op, Rng& r, const F& body, const G& intact) {
    g_at = 0;
    g_calls = 0;
    g_thrown = false;
    const uint64_t want = body();
    const long n = g_calls;
    count(std::string("functions swept"));
    const std::vector<long> ts = targets(n, r);
    for (long at : ts) {
        const size_t live = Registry::get().size();
        HeapScope heap;
        g_calls = 0;
        g_thrown = false;
        g_at = at;
        if (!caught(op, [&] { body(); })) bad(std::string("calls:") + op, sf("call %ld of %ld was not made the second time", at, n));
        heap.stop();
        g_at = 0;
        heap.expect_balanced((g_what + " " + op + sf(", call %ld of %ld threw", at, n)).c_str());
        if (Registry::get().size() != live) bad(std::string("leak-element:") + op, sf("%ld element(s) more than before, call %ld of %ld threw", static_cast<long>(Registry::get().size()) - static_cast<long>(live), at, n));
        if (!intact()) bad(std::string("input:") + op, sf("an input changed when call %ld of %ld threw", at, n));
        g_calls = 0;
        g_thrown = false;
        if (body() != want || g_calls != n) bad(std::string("after:") + op, sf("gives another result after call %ld of %ld threw", at, n));
        count(std::string("throws: ") + op);
        ++st().evaluations;
        seen(mix(mix(std::hash<std::string>()(op), static_cast<uint64_t>(at)), mix(std::hash<std::string>()(g_what), static_cast<uint64_t>(n))));
    }
}

// A function that changes its input in place: every attempt starts from a fresh one.
// want(calls) is the input after `calls` completed calls; nullptr: any live elements.
template<typename K, typename F>
static void sweep_mut(const char* op, Rng& r, const Model& m, const F& body, const std::function<Model(long)>& want) {
    long n;
    {
        K k(m, r);
        g_at = 0; g_calls = 0; g_thrown = false;
        body(k.seq());
        n = g_calls;
    }
    count(std::string("functions swept"));
    const std::vector<long> ts = targets(n, r);
    for (long at : ts) {
        HeapScope heap;
        {
            K k(m, r);
            const size_t live = Registry::get().size();
            g_calls = 0; g_thrown = false; g_at = at;
            caught(op, [&] { body(k.seq()); });
            g_at = 0;
            if (Registry::get().size() != live) bad(std::string("leak-element:") + op, sf("%ld element(s) more than before, call %ld of %ld threw", static_cast<long>(Registry::get().size()) - static_cast<long>(live), at, n));
            HeapPause hp;
            const Model got = shown(k.cseq());
            if (got.size() != m.size()) bad(std::string("input:") + op, "the length changed");
            if (want && got != want(at - 1)) bad(std::string("input:") + op, sf("call %ld of %ld threw, elements are ", at, n) + show(got) + " not " + show(want(at - 1)));
        }
        heap.stop();
        heap.expect_balanced((g_what + " " + op + sf(", call %ld of %ld threw", at, n)).c_str());
        count(std::string("throws: ") + op);
        ++st().evaluations;
        seen(mix(mix(std::hash<std::string>()(op), static_cast<uint64_t>(at)), mix(std::hash<std::string>()(g_what), static_cast<uint64_t>(n))));
    }
}

template<typename A> static int get(const A& a) { return Val<A>::get(a); }

template<typename K, bool mut = K::mut> struct InPlace {
    typedef typename K::Elem A;
    static void run(const Model& m, Rng& r) {
        const std::function<Model(long)> prefix = [&](long k) { Model w = m; for (long i = 0; i < k; ++i) w[static_cast<size_t>(i)] = 70 + w[static_cast<size_t>(i)] % 9; return w; };
        const auto change = [](A& a) { tick(); Val<A>::set(a, 70 + get(a) % 9); };
        sweep_mut<K>("for_each_mut", r, m, [&](typename K::Seq& s) { efp::for_each_mut(change, s); }, prefix);
        sweep_mut<K>("for_each_with_index_mut", r, m, [&](typename K::Seq& s) { efp::for_each_with_index_mut([&](size_t, A& a) { change(a); }, s); }, prefix);
        sweep_mut<K>("cartesian_for_each_mut", r, m, [&](typename K::Seq& s) { efp::cartesian_for_each_mut(change, s); }, prefix);
    }
};
template<typename K> struct InPlace<K, false> { static void run(const Model&, Rng&) {} };

template<typename K>
static void unary(size_t n) {
    typedef typename K::Elem A;
    if (!wanted(K::name())) return;
    for (size_t t = 0; t < scaled(n); ++t) {
        Rng r(mix(st().seed * 17 + t, std::hash<std::string>()(K::name())));
        const Model m = list_for<K>(r, r.chance(2) ? 300 : 30);
        g_what = K::name() + show(m);
        begin_case(g_what);
        {
            K k(m, r);
            const typename K::Seq& s = k.cseq();
            const auto intact = [&] { HeapPause hp; return shown(s) == m; };
            const auto fi = [](const A& a) { tick(); return get(a) * 2 + 1; };
            const auto ft = [](const A& a) { Tracked x(get(a)); tick(); return Tracked(x.get() + 3); };
            const auto fs = [](const A& a) { const std::string x = Val<std::string>::make(get(a)); tick(); return x; };
            const auto fv = [](const A& a) { efp::Vector<Tracked> v; v.push_back(Tracked(get(a))); tick(); v.push_back(Tracked(1)); return v; };
            const auto odd = [](const A& a) { tick(); return get(a) % 2 == 1; };
            const auto never = [](const A&) { tick(); return false; };
            const auto always = [](const A&) { tick(); return true; };
            sweep("map", r, [&] { return dg(efp::map(fi, s)); }, intact);
            sweep("map to objects", r, [&] { return dg(efp::map(ft, s)); }, intact);
            sweep("map to strings", r, [&] { return dg(efp::map(fs, s)); }, intact);
            sweep("map to vectors", r, [&] { const auto v = efp::map(fv, s); uint64_t h = 1; for (size_t i = 0; i < efp::length(v); ++i) h = mix(h, dg(efp::nth(i, v))); return h; }, intact);
            sweep("map twice", r, [&] { return dg(efp::map([](const Tracked& x) { tick(); return Tracked(x.get() - 1); }, efp::map(ft, s))); }, intact);
            sweep("map a composition", r, [&] { return dg(efp::map(efp::compose([](const Tracked& x) { tick(); return x.get(); }, ft), s)); }, intact);
            sweep("map_with_index", r, [&] { return dg(efp::map_with_index([&](size_t, const A& a) { return ft(a); }, s)); }, intact);
            sweep("cartesian_map", r, [&] { return dg(efp::cartesian_map(ft, s)); }, intact);
            sweep("filter", r, [&] { return dg(efp::filter(odd, s)); }, intact);
            sweep("filter all", r, [&] { return dg(efp::filter(always, s)); }, intact);
            sweep("foldl", r, [&] { const Tracked x = efp::foldl([](const Tracked& acc, const A& a) { Tracked y(get(a)); tick(); return Tracked((acc.get() * 7 + y.get()) % 1009); }, Tracked(1), s); return static_cast<uint64_t>(x.get()); }, intact);
            sweep("foldr", r, [&] { const Tracked x = efp::foldr([](const A& a, const Tracked& acc) { Tracked y(get(a)); tick(); return Tracked((acc.get() * 7 + y.get()) % 1009); }, Tracked(1), s); return static_cast<uint64_t>(x.get()); }, intact);
            sweep("foldl to a vector", r, [&] { return dg(efp::foldl([](efp::Vector<Tracked> acc, const A& a) { acc.push_back(Tracked(get(a))); tick(); return acc; }, efp::Vector<Tracked>(), s)); }, intact);
            sweep("for_each", r, [&] { efp::for_each([](const A&) { tick(); }, s); return 1u; }, intact);
            sweep("for_each_with_index", r, [&] { efp::for_each_with_index([](size_t, const A&) { tick(); }, s); return 1u; }, intact);
            sweep("cartesian_for_each", r, [&] { efp::cartesian_for_each([](const A&) { tick(); }, s); return 1u; }, intact);
            sweep("take_while", r, [&] { return dg(efp::take_while(always, s)); }, intact);
            sweep("drop_while", r, [&] { return dg(efp::drop_while(odd, s)); }, intact);
            sweep("find", r, [&] { return static_cast<uint64_t>(efp::find(never, s)); }, intact);
            sweep("find_index", r, [&] { const auto i = efp::find_index(odd, s); return static_cast<uint64_t>(i ? i.value() : 999); }, intact);
            sweep("find_indices", r, [&] { const auto v = efp::find_indices(odd, s); uint64_t h = 1; for (size_t i = 0; i < v.size(); ++i) h = mix(h, v[i]); return h; }, intact);
            sweep("from_function", r, [&] { return dg(efp::from_function(m.size(), [&](size_t i) { tick(); return Tracked(m[i]); })); }, intact);
            sweep("for_index", r, [&] { efp::for_index([](size_t) { tick(); }, m.size()); return 1u; }, intact);
            InPlace<K>::run(m, r);
        }
        expect_no_live(K::name().c_str());
    }
}

template<typename K, typename L>
static void binary(size_t n) {
    typedef typename K::Elem A;
    typedef typename L::Elem B;
    for (size_t t = 0; t < scaled(n); ++t) {
        Rng r(mix(st().seed * 19 + t, std::hash<std::string>()(K::name() + L::name())));
        const Model m = list_for<K>(r, 7), o = list_for<L>(r, 7);
        g_what = K::name() + show(m) + " " + L::name() + show(o);
        begin_case(g_what);
        {
            K k(m, r);
            L l(o, r);
            const auto intact = [&] { HeapPause hp; return shown(k.cseq()) == m && shown(l.cseq()) == o; };
            const auto f = [](const A& a, const B& b) { Tracked x(get(a)); tick(); return Tracked(x.get() * 100 + get(b)); };
            sweep("map/2", r, [&] { return dg(efp::map(f, k.cseq(), l.cseq())); }, intact);
            sweep("map_with_index/2", r, [&] { return dg(efp::map_with_index([&](size_t, const A& a, const B& b) { return f(a, b); }, k.cseq(), l.cseq())); }, intact);
            sweep("cartesian_map/2", r, [&] { return dg(efp::cartesian_map(f, k.cseq(), l.cseq())); }, intact);
            sweep("for_each/2", r, [&] { efp::for_each([&](const A& a, const B& b) { f(a, b); }, k.cseq(), l.cseq()); return 1u; }, intact);
            sweep("cartesian_for_each/2", r, [&] { efp::cartesian_for_each([&](const A& a, const B& b) { f(a, b); }, k.cseq(), l.cseq()); return 1u; }, intact);
            sweep("for_each_with_index/2", r, [&] { efp::for_each_with_index([&](size_t, const A& a, const B& b) { f(a, b); }, k.cseq(), l.cseq()); return 1u; }, intact);
        }
        expect_no_live(g_what.c_str());
    }
}

// ---------------------------------------------------------------- element comparisons that throw
struct Touchy {
    Tracked t;
    Touchy() {}
    explicit Touchy(int v) : t(v) {}
    bool operator==(const Touchy& o) const { tick(); return t == o.t; }
    bool operator!=(const Touchy& o) const { tick(); return t != o.t; }
    bool operator<(const Touchy& o) const { tick(); return t < o.t; }
    bool operator>(const Touchy& o) const { tick(); return o.t < t; }
};
namespace mon {
template<> struct Val<Touchy> {
    static Touchy make(int v) { return Touchy(v); }
    static int get(const Touchy& t) { return t.t.get(); }
    static void set(Touchy& t, int v) { t.t.set(v); }
    static const char* name() { return "Touchy"; }
};
}  // namespace mon

template<typename K>
static void compared(size_t n) {
    typedef typename K::Elem A;
    for (size_t t = 0; t < scaled(n); ++t) {
        Rng r(mix(st().seed * 41 + t, std::hash<std::string>()(K::name())));
        const Model m = list_for<K>(r, r.chance(2) ? 300 : 30);
        g_what = K::name() + show(m);
        begin_case(g_what);
        {
            K k(m, r), k2(m, r);
            const typename K::Seq& s = k.cseq();
            const A key = Val<A>::make(m.empty() || r.chance(40) ? 500 : m[m.size() - 1]);
            const auto intact = [&] { HeapPause hp; return shown(s) == m && shown(k2.cseq()) == m; };
            sweep("elem", r, [&] { return static_cast<uint64_t>(efp::elem(key, s)); }, intact);
            sweep("elem_index", r, [&] { const auto i = efp::elem_index(key, s); return static_cast<uint64_t>(i ? i.value() : 999); }, intact);
            sweep("elem_indices", r, [&] { const auto v = efp::elem_indices(key, s); uint64_t h = 1; for (size_t i = 0; i < v.size(); ++i) h = mix(h, v[i]); return h; }, intact);
        }
        expect_no_live(g_what.c_str());
    }
}
template<typename K>
static void equality(size_t n) {
    for (size_t t = 0; t < scaled(n); ++t) {
        Rng r(mix(st().seed * 43 + t, std::hash<std::string>()(K::name())));
        const Model m = list_for<K>(r, r.chance(2) ? 300 : 30);
        g_what = K::name() + show(m);
        begin_case(g_what);
        {
            K k(m, r), k2(m, r);
            sweep("==", r, [&] { return static_cast<uint64_t>(k.cseq() == k2.cseq()); }, [&] { HeapPause hp; return shown(k.cseq()) == m && shown(k2.cseq()) == m; });
            typedef efp::Enum<int, typename K::Seq, Touchy> E;
            const E e = k.cseq(), e2 = k2.cseq();
            sweep("Enum ==", r, [&] { return static_cast<uint64_t>(e == e2); }, [&] { HeapPause hp; return e.index() == 1 && shown(e.template get<1>()) == m; });
            const efp::Tuple<Touchy, typename K::Seq> tp(Touchy(4), k.cseq()), tp2(tp);
            sweep("Tuple ==", r, [&] { return static_cast<uint64_t>(tp == tp2); }, [&] { HeapPause hp; return shown(efp::get<1>(tp)) == m && efp::get<0>(tp2).t.get() == 4; });
        }
        expect_no_live(g_what.c_str());
    }
}

// ---------------------------------------------------------------- sorts
template<typename A, typename S>
static void sort_one(const char* op, Rng& r, const Model& m, const S& sort) {
    sweep_mut<KVector<A>>(op, r, m, sort, nullptr);
    // after a throw the vector can be sorted
    KVector<A> k(m, r);
    g_calls = 0; g_at = 0;
    sort(k.seq());
    const long n = g_calls;
    if (n < 2) return;
    for (int rep = 0; rep < 3; ++rep) {
        for (size_t i = 0; i < m.size(); ++i) k.seq()[i] = Val<A>::make(m[i]);
        g_calls = 0; g_thrown = false; g_at = 1 + static_cast<long>(r.below(static_cast<size_t>(n)));
        caught(op, [&] { sort(k.seq()); });
        g_at = 0;
        for (size_t i = 0; i < m.size(); ++i) k.seq()[i] = Val<A>::make(m[i]);
        sort(k.seq());
        HeapPause hp;
        Model w = m;
        std::sort(w.begin(), w.end());
        if (shown(k.cseq()) != w) bad(std::string("after:") + op, "does not sort after an exception");
    }
}

template<typename A>
static void sorts(size_t n) {
    for (size_t t = 0; t < scaled(n); ++t) {
        Rng r(mix(st().seed * 47 + t, std::hash<std::string>()(Val<A>::name())));
        const size_t len = r.chance(30) ? r.below(6) : r.chance(70) ? r.below(40) : 30 + r.below(110);
        Model m(len);
        const int span = r.chance(30) ? 4 : 999;
        for (int& v : m) v = r.range(0, span);
        if (r.chance(20)) std::sort(m.begin(), m.end());
        if (r.chance(10)) std::sort(m.rbegin(), m.rend());
        g_what = std::string("Vector<") + Val<A>::name() + ">" + show(m);
        begin_case(g_what);
        typedef efp::Vector<A> V;
        const auto less = [](const A& a, const A& b) { tick(); return Val<A>::get(a) < Val<A>::get(b); };
        sort_one<A>("sort_by", r, m, [&](V& v) { efp::sort_by(v, less); });
        sort_one<A>("sort_unstable_by", r, m, [&](V& v) { efp::sort_unstable_by(v, less); });
        sort_one<A>("insertion_sort_by", r, m, [&](V& v) { efp::insertion_sort_by(v, less); });
        sort_one<A>("heapsort_by", r, m, [&](V& v) { efp::heapsort_by(v, less); });
        sort_one<A>("timsort_by", r, m, [&](V& v) { efp::timsort_by(v, less); });
        sort_one<A>("size_trosort_by", r, m, [&](V& v) { efp::size_trosort_by(v, less); });
        if (len) {
            sort_one<A>("merge_sort_by", r, m, [&](V& v) { efp::merge_sort_by(v, 0, v.size() - 1, less); });
            sort_one<A>("quicksort_by", r, m, [&](V& v) { efp::quicksort_by(v, 0, v.size() - 1, less); });
        }
        expect_no_live(g_what.c_str());
    }
}
static void sorts_by_operator(size_t n) {
    for (size_t t = 0; t < scaled(n); ++t) {
        Rng r(st().seed * 53 + t);
        Model m(r.below(50));
        for (int& v : m) v = r.range(0, 99);
        g_what = "Vector<Touchy>" + show(m);
        begin_case(g_what);
        typedef efp::Vector<Touchy> V;
        sort_one<Touchy>("sort", r, m, [&](V& v) { efp::sort(v); });
        sort_one<Touchy>("sort_unstable", r, m, [&](V& v) { efp::sort_unstable(v); });
        expect_no_live(g_what.c_str());
    }
}

// ---------------------------------------------------------------- Enum, Maybe, Tuple, compose, func_ptr
static void combinators(size_t n) {
    typedef efp::Enum<int, Tracked, std::string, efp::Vector<Tracked>> E;
    for (size_t t = 0; t < scaled(n); ++t) {
        Rng r(st().seed * 59 + t);
        const int which = static_cast<int>(r.below(4)), v = r.range(1, 99), w = r.range(1, 99);
        g_what = sf("alternative %d value %d, %d", which, v, w);
        begin_case(g_what);
        HeapScope heap;
        {
            E e = v;
            if (which == 1) e = Tracked(v);
            if (which == 2) e = Val<std::string>::make(v);
            if (which == 3) { efp::Vector<Tracked> x; for (int i = 0; i < 4; ++i) x.push_back(Tracked(v + i)); e = x; }
            const E& ce = e;
            const E keep = e;
            const auto intact = [&] { return e.index() == which && keep == e; };
            sweep("Enum::match", r, [&] {
                return static_cast<uint64_t>(ce.match([](int x) { Tracked y(x); tick(); return y.get(); }, [](const Tracked& x) { const Tracked y(x); tick(); return y.get(); },
                                [](const std::string& x) { const std::string y = x; tick(); return static_cast<int>(y.size()); }, [](const efp::Vector<Tracked>& x) { const efp::Vector<Tracked> y = x; tick(); return y[1].get(); }));
            }, intact);
            sweep("Enum::match wildcard", r, [&] { return static_cast<uint64_t>(ce.match([](char) { tick(); return Tracked(1); }, []() { tick(); return Tracked(2); }).get()); }, intact);
            sweep("Enum::match to an object", r, [&] { const auto x = ce.match([](const Tracked& x) { Tracked y(x); tick(); return y; }, []() { Tracked y(3); tick(); return y; }); return static_cast<uint64_t>(x.get()); }, intact);
            sweep("Enum::match of a temporary", r, [&] { return static_cast<uint64_t>(E(e).match([](const Tracked& x) { Tracked y(x); tick(); return y.get(); }, []() { tick(); return 3; })); }, intact);
            sweep("Enum::match nested", r, [&] { return static_cast<uint64_t>(ce.match([&](const Tracked& x) { tick(); return keep.match([&](const Tracked& y) { Tracked z(y); tick(); return x.get() + z.get(); }, []() { return 0; }); }, [&]() { tick(); return keep.match([](const Tracked&) { return 1; }, []() { tick(); return 2; }); })); }, intact);
            // assigning the result of a match to the object itself
            sweep("Enum assigned from its match", r, [&] { E f = e; f = f.match([](int x) { tick(); return E(Tracked(x)); }, []() { tick(); return E(5); }); return static_cast<uint64_t>(f.index()); }, intact);

            efp::Maybe<Tracked> m = efp::nothing, none = efp::nothing;
            if (which != 0) m = Tracked(v);
            const auto mint = [&] { return static_cast<bool>(m) == (which != 0) && (!m || m.value().get() == v); };
            const auto f = [](const Tracked& x) { Tracked y(x.get() + 1); tick(); return y; };
            const auto b = [](const Tracked& x) -> efp::Maybe<Tracked> { Tracked y(x.get() + 1); tick(); if (y.get() % 3 == 0) return efp::nothing; return y; };
            const auto val = [](const efp::Maybe<Tracked>& x) { return static_cast<uint64_t>(x ? x.value().get() : 0); };
            sweep("Maybe::fmap", r, [&] { return val(m.fmap(f)); }, mint);
            sweep("fmap", r, [&] { return val(efp::fmap(f, m)); }, mint);
            sweep("Maybe::bind", r, [&] { return val(m.bind(b)); }, mint);
            sweep("bind", r, [&] { return val(efp::bind(m, b)); }, mint);
            sweep("Maybe >>=", r, [&] { return val(m >>= b); }, mint);
            sweep("Maybe::bind chain", r, [&] { auto a = m.bind(b); auto c = a.bind(b); auto d = c.fmap(f); return val(d); }, mint);
            const efp::Maybe<std::function<Tracked(const Tracked&)>> mf = std::function<Tracked(const Tracked&)>(f);
            sweep("Maybe::ap", r, [&] { return val(m.ap(mf)); }, mint);
            sweep("ap", r, [&] { return val(efp::ap(mf, m)); }, mint);
            sweep("Maybe::match", r, [&] { return static_cast<uint64_t>(m.match([](const Tracked& x) { Tracked y(x); tick(); return y.get(); }, [](efp::Nothing) { tick(); return -1; })); }, mint);

            const efp::Tuple<int, Tracked, std::string> tp(v, Tracked(w), Val<std::string>::make(v));
            const auto tint = [&] { return efp::get<0>(tp) == v && efp::get<1>(tp).get() == w && Val<std::string>::get(efp::get<2>(tp)) == v; };
            sweep("Tuple::match", r, [&] { return static_cast<uint64_t>(tp.match([](int a, const Tracked& x, const std::string& s) { Tracked y(x); const std::string q = s; tick(); return a + y.get() + static_cast<int>(q.size()); })); }, tint);
            sweep("Tuple::match by value", r, [&] { return static_cast<uint64_t>(tp.match([](int a, Tracked x, std::string s) { tick(); return a + x.get() + static_cast<int>(s.size()); })); }, tint);
            const auto comp = efp::compose(f, f, f, [](const Tracked& x, int a) { Tracked y(x.get() + a); tick(); return y; });
            sweep("compose", r, [&] { return static_cast<uint64_t>(comp(efp::get<1>(tp), v).get()); }, tint);
            auto clo = [&](const Tracked& x, std::string s) { Tracked y(x); tick(); return y.get() + static_cast<int>(s.size()); };
            const auto fp = efp::func_ptr(clo);
            sweep("func_ptr", r, [&] { return static_cast<uint64_t>(fp(efp::get<1>(tp), efp::get<2>(tp))); }, tint);
        }
        heap.stop();
        expect_no_live(g_what.c_str());
    }
}

// ---------------------------------------------------------------- bound violations and memory that runs out
template<typename F>
static void refused(const char* op, const F& f) {
    bool ok = false;
    const size_t live = Registry::get().size();
    HeapScope heap;
    try { f(); } catch (const std::exception&) { ok = true; } catch (...) {}
    heap.stop();
    if (!ok) bad(std::string("not-refused:") + op, "no exception");
    heap.expect_balanced((g_what + " " + op).c_str());
    if (Registry::get().size() != live) bad(std::string("leak-element:") + op, "a refused operation changed the number of live elements");
    count("refused operations");
}

template<typename V>
static void vector_bounds(V& v, Model& m, Rng& r) {
    switch (r.below(9)) {
        case 0: if (m.empty()) { refused("pop_back", [&] { v.pop_back(); }); return; } v.pop_back(); m.pop_back(); return;
        case 1: { const size_t i = m.size() + 1 + r.below(3); refused("insert", [&] { v.insert(i, Tracked(1)); }); return; }
        case 2: { const size_t i = m.size() + r.below(3); refused("erase", [&] { v.erase(i); }); return; }
        case 3: if (m.empty()) { refused("head", [&] { efp::head(v); }); refused("last", [&] { efp::last(v); }); refused("tail", [&] { efp::tail(v); }); refused("init", [&] { efp::init(v); }); } return;
        case 4: if (!m.empty()) { const size_t i = r.below(m.size()); v.erase(i); m.erase(m.begin() + static_cast<long>(i)); } return;
        case 5: { const size_t i = r.below(m.size() + 1); v.insert(i, Tracked(7)); m.insert(m.begin() + static_cast<long>(i), 7); return; }
        default: { const int x = r.range(1, 99); v.push_back(Tracked(x)); m.push_back(x); return; }
    }
}

typedef efp::BasicString<char, efp::detail::DefaultCharTraits<char>, MonAlloc<char>> AllocString;

// an operation of a String whose allocation may fail: then nothing has changed
static void string_without_memory(AllocString& z, std::string& zm, Rng& r) {
    std::string t;
    for (size_t n = r.below(14); n > 0; --n) t.push_back(static_cast<char>('a' + r.below(4)));
    const AllocString other(t.c_str());
    
    const size_t at = r.below(zm.size() + 1), n = r.below(12), k = r.below(14);
    std::string w = zm;
    if (r.chance(30)) z.shrink_to_fit();
    z.c_str();
    static const char* const names[] = {"append", "append n", "+=", "assign", "assign n", "insert", "insert n", "push_back", "resize", "reserve", "copy", "append own", "insert own", "shrink_to_fit"};
    switch (k) {
        case 0: w += t; break;
        case 1: w.append(n, 'x'); break;
        case 2: w += t; break;
        case 3: w = t; break;
        case 4: w.assign(n, 'y'); break;
        case 5: w.insert(at, t); break;
        case 6: w.insert(at, t.c_str(), t.size()); break;
        case 7: w.push_back('z'); break;
        case 8: w.resize(n); break;
        case 10: w = t; break;
        case 11: w += zm.c_str() + at; break;
        case 12: w.insert(at, zm.c_str()); break;
        default: break;
    }
    Ledger::get().fail_in = static_cast<long>(r.below(3));
    bool done = false;
    HeapScope heap;
    try {
        switch (k) {
            case 0: z.append(t.c_str()); break;
            case 1: z.append(n, 'x'); break;
            case 2: z += other; break;
            case 3: z.assign(t.c_str()); break;
            case 4: z.assign(n, 'y'); break;
            case 5: z.insert(at, t.c_str()); break;
            case 6: z.insert(at, t.c_str(), t.size()); break;
            case 7: z.push_back('z'); break;
            case 8: z.resize(n); break;
            case 9: z.reserve(n * 3); break;
            case 10: z = other; break;
            case 11: z.append(z.data() ? z.data() + at : ""); break;
            case 12: z.insert(at, z.data() ? z.data() : ""); break;
            default: z.shrink_to_fit(); break;
        }
        done = true;
    } catch (const std::bad_alloc&) {
        count("allocation failures of a String");
    }
    heap.stop();
    Ledger::get().fail_in = -1;
    g_what += names[k];
    if (done) zm = w;
    else heap.expect_balanced((std::string("allocation failure in String ") + names[k]).c_str());
    if (z.size() != zm.size() || std::string(z.data(), z.size()) != zm) bad("input:String " + std::string(names[k]), (done ? "" : "out of memory: ") + std::string("holds ") + std::string(z.data(), z.size()) + " not " + zm);
    g_what.resize(g_what.size() - std::strlen(names[k]));
    if (zm.size() > 60) { z.clear(); zm.clear(); }
}

static void bounds(size_t n) {
    for (size_t t = 0; t < scaled(n); ++t) {
        Rng r(st().seed * 61 + t);
        g_what = sf("bounds, history %zu", t);
        begin_case(g_what);
        uint64_t h = 3;
        {
            efp::Vector<Tracked> v;
            efp::ArrVec<Tracked, 6> a;
            efp::Vector<Tracked, MonAlloc<Tracked>> o;
            AllocString z;
            std::string zm;
            efp::Enum<int, Tracked, std::string> e = 1;
            efp::Maybe<Tracked> mb = efp::nothing;
            efp::String s;
            Model vm, am, om;
            int ei = 0;
            std::string sm;
            const int steps = r.range(5, 60);
            for (int i = 0; i < steps; ++i) {
                const size_t op = r.below(13);
                h = mix(h, op);
                switch (op) {
                    case 0: case 1: vector_bounds(v, vm, r); break;
                    case 2: case 3:
                        if (am.size() == 6) {
                            refused("ArrVec::push_back", [&] { a.push_back(Tracked(1)); });
                            const Tracked x(2);
                            refused("ArrVec::push_back", [&] { a.push_back(x); });
                            refused("ArrVec::insert", [&] { a.insert(r.below(7), x); });
                            a.pop_back(); am.pop_back();
                            if (r.chance(40)) { a.clear(); am.clear(); }
                        } else if (r.chance(10)) {
                            refused("ArrVec::resize", [&] { a.resize(7 + r.below(5)); });
                            refused("ArrVec::reserve", [&] { a.reserve(7 + r.below(5)); });
                        } else vector_bounds(a, am, r);
                        break;
                    case 4: { const int x = r.range(1, 9); e = Tracked(x); ei = 1; refused("Enum::get", [&] { e.get<int>(); }); refused("Enum::get", [&] { e.get<2>(); }); if (e.get<Tracked>().get() != x) bad("input:Enum::get", "changed"); break; }
                    case 5: { e = std::string("a text long enough to be allocated"); ei = 2; refused("Enum::move", [&] { Tracked q(e.move<Tracked>()); }); break; }
                    case 6: { mb = efp::nothing; refused("Maybe::value", [&] { mb.value(); }); refused("Maybe::move", [&] { Tracked q(mb.move()); }); mb = Tracked(4); if (mb.value().get() != 4) bad("input:Maybe", "changed"); break; }
                    case 7: {
                        refused("String::insert", [&] { s.insert(sm.size() + 1 + r.below(3), "abc"); });
                        refused("String::erase", [&] { s.erase(sm.size() + r.below(3)); });
                        refused("String::at", [&] { s.at(sm.size() + r.below(3)); });
                        refused("String::substr", [&] { s.substr(sm.size() + 1 + r.below(3), 1); });
                        s.append("xy"); sm += "xy";
                        break;
                    }
                    case 12: string_without_memory(z, zm, r); break;
                    default: {           // memory runs out
                        const int x = r.range(1, 99);
                        const size_t k = r.below(10);
                        efp::Vector<Tracked, MonAlloc<Tracked>> other;
                        Model xm;
                        if (k == 6) for (size_t q = r.below(9); q > 0; --q) { const int y = r.range(1, 99); other.push_back(Tracked(y)); xm.push_back(y); }
                        Ledger::get().fail_in = static_cast<long>(r.below(2));
                        bool done = false;
                        const size_t live = Registry::get().size();
                        HeapScope heap;
                        try {
                            switch (k) {
                                case 0: o.reserve(o.capacity() + 1 + r.below(20)); break;
                                case 1: { const size_t len = o.size() + r.below(12); o.resize(len); Ledger::get().fail_in = -1; while (om.size() < len) om.push_back(0); break; }
                                case 2: o.shrink_to_fit(); break;
                                case 3: o.insert(om.size() / 2, Tracked(x)); om.insert(om.begin() + static_cast<long>(om.size() / 2), x); break;
                                case 4: { const efp::Vector<Tracked, MonAlloc<Tracked>> c(o); break; }
                                case 5: o.emplace_back(x); om.push_back(x); break;
                                case 6: o = static_cast<const efp::Vector<Tracked, MonAlloc<Tracked>>&>(other); Ledger::get().fail_in = -1; om = xm; break;
                                default: o.push_back(Tracked(x)); om.push_back(x); break;
                            }
                            done = true;
                        } catch (const std::bad_alloc&) {
                            count("allocation failures");
                        }
                        heap.stop();
                        Ledger::get().fail_in = -1;
                        if (!done) {
                            heap.expect_balanced((g_what + sf(" allocation failure in operation %zu", k)).c_str());
                            if (Registry::get().size() != live) bad("leak-element:allocation failure", sf("operation %zu", k));
                        }
                        if (om.size() > 40) { o.clear(); om.clear(); }
                        break;
                    }
                }
                if (shown(v) != vm) { bad("input:Vector", "elements are " + show(shown(v)) + " not " + show(vm)); break; }
                if (shown(a) != am) { bad("input:ArrVec", "elements are " + show(shown(a)) + " not " + show(am)); break; }
                Model om2; for (size_t q = 0; q < o.size(); ++q) om2.push_back(o[q].get());
                if (om2 != om) { bad("input:Vector with an allocator", "elements are " + show(om2) + " not " + show(om)); break; }
                if (z.size() != zm.size() || std::string(z.data(), z.size()) != zm) { bad("input:String with an allocator", "holds " + std::string(z.data(), z.size()) + " not " + zm); break; }
                if (e.index() != ei) { bad("input:Enum", "another alternative"); break; }
                if (sm != s.c_str() || s.size() != sm.size()) { bad("input:String", "holds " + std::string(s.c_str())); break; }
            }
        }
        expect_no_live(g_what.c_str());
        Ledger::get().expect_empty(g_what.c_str());
        seen(h);
    }
}

// ---------------------------------------------------------------- elements whose copy or construction throws
template<typename T> static Model items(const T& c) { Model m; for (size_t i = 0; i < static_cast<size_t>(efp::length(c)); ++i) m.push_back(efp::nth(i, c).get()); return m; }
template<typename... As> static Model items(const efp::Tuple<As...>& t) { Model m; t.match([&](const As&... a) { const int v[] = {a.get()...}; m.assign(v, v + sizeof...(As)); }); return m; }
static Model items(const efp::Maybe<Tracked>& t) { return t.has_value() ? Model(1, t.value().get()) : Model(); }
static Model items(const efp::Enum<int, Tracked>& t) { return t.index() ? Model(1, t.get<Tracked>().get()) : Model(1, -t.get<int>()); }
template<typename T, size_t n> static Model items(const efp::Vector<efp::ArrVec<T, n>>& v) { Model m; for (size_t i = 0; i < v.size(); ++i) { for (size_t k = 0; k < v[i].size(); ++k) m.push_back(v[i][k].get()); m.push_back(-1); } return m; }
template<typename T, size_t n> static Model items(const efp::ArrVec<efp::Vector<T>, n>& v) { Model m; for (size_t i = 0; i < v.size(); ++i) { for (size_t k = 0; k < v[i].size(); ++k) m.push_back(v[i][k].get()); m.push_back(-1); } return m; }

// the operations of each type: all of them may throw, all but copy assignment must then have changed nothing
template<typename C> struct Fragile;
template<typename C> struct FragileList {
    typedef typename C::Element E;
    static void run(C& a, const C& b, Rng& r) {
        switch (r.below(9)) {
            case 8: g_what = "shrink_to_fit"; shrink(a, 0); break;
            case 0: g_what = "copy-assign"; a = b; break;
            case 1: { g_what = "copy-construct"; const C c(b); break; }
            case 2: { g_what = "list-construct"; const E x(1), y(2); const C c{x, y, x}; break; }
            case 3: { g_what = "resize"; a.resize(r.below(6)); break; }
            case 4: if (a.size()) { g_what = "push_back own element"; a.push_back(a[r.below(a.size())]); } break;
            case 5: { g_what = "insert"; const E x(r.range(1, 99)); a.insert(r.below(a.size() + 1), x); break; }
            case 6: if (a.size()) { g_what = "erase"; a.erase(r.below(a.size())); } break;
            default: { g_what = "push_back"; const E x(r.range(1, 99)); a.push_back(x); }
        }
    }
    // growing by several elements may stop between two
    template<typename S> static auto shrink(S& a, int) -> decltype(a.shrink_to_fit()) { a.shrink_to_fit(); if (a.size() % 2) a.reserve(a.capacity() + 3); }
    template<typename S> static void shrink(S&, long) {}
    // what cannot be moved is copied one by one
    static bool strong() { return g_what != "copy-assign" && g_what != "resize" && (!std::is_same<E, CopyOnly>::value || (g_what != "insert" && g_what != "erase")); }
    static void refill(C& a, Rng& r) { a.clear(); for (size_t i = r.below(6); i > 0; --i) a.push_back(E(r.range(1, 99))); }
};
template<> struct Fragile<efp::Vector<Tracked>> : FragileList<efp::Vector<Tracked>> {};
template<> struct Fragile<efp::Vector<Tracked, MonAlloc<Tracked>>> : FragileList<efp::Vector<Tracked, MonAlloc<Tracked>>> {};
template<> struct Fragile<efp::Vector<CopyOnly>> : FragileList<efp::Vector<CopyOnly>> {};
template<> struct Fragile<efp::Vector<CopyOnly, MonAlloc<CopyOnly>>> : FragileList<efp::Vector<CopyOnly, MonAlloc<CopyOnly>>> {};
template<> struct Fragile<efp::ArrVec<Tracked, 9>> : FragileList<efp::ArrVec<Tracked, 9>> {};
template<typename C> struct FragileValue {   // copies only
    static void run(C& a, const C& b, Rng& r) {
        switch (r.below(3)) {
            case 0: g_what = "copy-construct"; { const C c(b); } break;
            case 1: g_what = "default-construct"; { const C c; } break;
            default: g_what = "copy-assign"; a = b;
        }
    }
    static bool strong() { return g_what != "copy-assign"; }
};
template<typename... As> struct Fragile<efp::Tuple<As...>> {
    typedef efp::Tuple<As...> C;
    static void run(C& a, const C& b, Rng& r) {
        if (r.chance(50)) { g_what = "copy-construct"; const C c(b); }
        else if (r.chance(50)) { g_what = "construct"; const Tracked x(1); const C c(x, x, x); }
        else { g_what = "copy-assign"; a = b; }
    }
    static bool strong() { return g_what != "copy-assign"; }
    static void refill(C& a, Rng& r) { a = C(As(r.range(1, 99))...); }
};
template<size_t n> struct Fragile<efp::Array<Tracked, n>> : FragileValue<efp::Array<Tracked, n>> {
    typedef efp::Array<Tracked, n> C;
    static void run(C& a, const C& b, Rng& r) {
        if (r.chance(25)) { g_what = "list-construct"; const Tracked x(1), y(2), z(3); const C c{x, y, z}; const efp::Vector<Tracked> v(c); const efp::ArrVec<Tracked, 5> w{x, y}; const efp::ArrVec<Tracked, 7> q(w); const efp::Vector<Tracked> u(w); }
        else FragileValue<C>::run(a, b, r);
    }
    static void refill(C& a, Rng& r) { for (size_t i = 0; i < n; ++i) a[i] = Tracked(r.range(1, 99)); }
};
template<typename C> struct FragileRing {
    static void run(C& a, const C& b, Rng& r) {
        switch (r.below(5)) {
            case 0: g_what = "copy-construct"; { const C c(b); } break;
            case 1: g_what = "default-construct"; { const C c; } break;
            case 2: g_what = "copy-assign"; a = b; break;
            default: { g_what = "push_back"; const Tracked x(r.range(1, 99)); a.push_back(x); }
        }
    }
    static bool strong() { return g_what != "copy-assign"; }
};
template<size_t n> struct Fragile<efp::Vcb<Tracked, n>> : FragileRing<efp::Vcb<Tracked, n>> {
    static void refill(efp::Vcb<Tracked, n>& a, Rng& r) { for (size_t i = r.below(2 * n); i > 0; --i) a.push_back(Tracked(r.range(1, 99))); }
};
template<size_t n> struct Fragile<efp::Vcq<Tracked, n>> : FragileRing<efp::Vcq<Tracked, n>> {
    static void refill(efp::Vcq<Tracked, n>& a, Rng& r) { for (size_t i = r.below(2 * n); i > 0; --i) if (a.size() && r.chance(40)) (void)a.pop_front(); else a.push_back(Tracked(r.range(1, 99))); }
};
template<> struct Fragile<efp::Maybe<Tracked>> : FragileValue<efp::Maybe<Tracked>> {
    static void refill(efp::Maybe<Tracked>& a, Rng& r) { if (r.chance(30)) a = efp::nothing; else a = Tracked(r.range(1, 99)); }
};
template<> struct Fragile<efp::Enum<int, Tracked>> : FragileValue<efp::Enum<int, Tracked>> {
    static void refill(efp::Enum<int, Tracked>& a, Rng& r) { if (r.chance(30)) a = r.range(1, 9); else a = Tracked(r.range(1, 99)); }
    typedef efp::Enum<int, Tracked> C;
    static void run(C& a, const C& b, Rng& r) {
        switch (r.below(4)) {
            case 0: { g_what = "from-alternative"; const Tracked x(3); const C c(x); break; }
            case 1: { g_what = "assign-alternative"; const Tracked x(4); a = x; break; }
            case 2: g_what = "copy-construct"; { const C c(b); } break;
            default: g_what = "copy-assign"; a = b;
        }
    }
    static bool strong() { return true; }
};
template<typename O> struct FragileNested {
    static void run(O& a, const O& b, Rng& r) {
        switch (r.below(4)) {
            case 0: g_what = "copy-construct"; { const O c(b); } break;
            case 1: g_what = "copy-assign"; a = b; break;
            case 2: if (b.size()) { g_what = "push_back"; a.push_back(b[r.below(b.size())]); } break;
            default: if (a.size()) { g_what = "insert own element"; a.insert(r.below(a.size() + 1), a[r.below(a.size())]); }
        }
    }
    static bool strong() { return g_what != "copy-assign"; }
    static void refill(O& a, Rng& r) {
        a.clear();
        for (size_t i = r.below(4); i > 0; --i) {
            typename O::Element e;
            for (size_t k = r.below(4); k > 0; --k) e.push_back(Tracked(r.range(1, 99)));
            a.push_back(e);
        }
    }
};
template<> struct Fragile<efp::Vector<efp::ArrVec<Tracked, 4>>> : FragileNested<efp::Vector<efp::ArrVec<Tracked, 4>>> {};
template<> struct Fragile<efp::ArrVec<efp::Vector<Tracked>, 7>> : FragileNested<efp::ArrVec<efp::Vector<Tracked>, 7>> {};

template<typename C> struct Fresh { static C make() { return C(); } };
template<typename... As> struct Fresh<efp::Tuple<As...>> { static efp::Tuple<As...> make() { return efp::Tuple<As...>(As(1)...); } };

template<typename C>
static void fragile(const char* name, size_t n) {
    Rng r(st().seed * 77 + std::strlen(name));
    size_t thrown = 0;
    for (size_t t = 0; t < scaled(n); ++t) {
        begin_case(name);
        Model am, bm;
        g_what.reserve(100);
        HeapScope heap;
        uint64_t h = 17;
        {
            C a(Fresh<C>::make()), b(Fresh<C>::make());
            Fragile<C>::refill(a, r);
            Fragile<C>::refill(b, r);
            const int steps = r.range(3, 25);
            for (int i = 0; i < steps; ++i) {
                { HeapPause hp; am = items(a); bm = items(b); g_what = ""; }
                const int64_t at = static_cast<int64_t>(1 + r.below(r.chance(50) ? 3 : 9));
                if (r.chance(70)) Life::throw_copy_in() = at; else throw_make_in() = at;
                bool boom = false;
                try { Fragile<C>::run(a, b, r); } catch (const CopyBoom&) { boom = true; } catch (const efp::RuntimeError&) { }
                Life::throw_copy_in() = -1;
                throw_make_in() = -1;
                HeapPause hp;   // from here on only the monitor allocates
                h = mix(h, std::hash<std::string>()(g_what) + boom);
                if (items(b) != bm) bad(std::string("input:") + name, "the source changed");
                const Model now = items(a);     // every element it still has is alive
                if (boom) {
                    ++thrown;
                    seen(mix(h, digest(now)));
                    if (Fragile<C>::strong() && now != am) bad(std::string("input:") + name, "the copy of an element threw, elements are " + show(now) + " not " + show(am));
                }
            }
            // usable as ever
            Fragile<C>::refill(a, r);
            a = b;
            { HeapPause hp; if (items(a) != items(b)) bad(std::string("after:") + name, "an assignment after the throw did not assign"); }
        }
        heap.stop();
        heap.expect_balanced(name);
        expect_no_live(name);
        Ledger::get().expect_empty(name);
    }
    count(std::string("throwing elements in ") + name, thrown);
}

int main(int argc, char** argv) {
    init(argc, argv);
    heap_install();
#if SLICE == 0
    unary<KArray<Tracked, 5>>(6); unary<KArrVec<Tracked, 9>>(8); unary<KVector<Tracked>>(8);
#elif SLICE == 1
    unary<KVcq<Tracked, 6>>(6); unary<KStdVector<Tracked>>(6);
#elif SLICE == 2
    unary<KVcb<int, 4>>(6); unary<KVectorView<Tracked>>(6); unary<KArrayView<int, 5>>(6);
#elif SLICE == 3
    unary<KStdArray<std::string, 4>>(6); unary<KOpen<Tracked>>(6); unary<KString>(6);
#elif SLICE == 4
    binary<KVector<Tracked>, KVector<Tracked>>(8); binary<KVector<Tracked>, KArray<int, 4>>(6); binary<KArrVec<Tracked, 6>, KArrVec<std::string, 5>>(6);
    binary<KArray<Tracked, 4>, KArray<Tracked, 3>>(6); binary<KStdVector<int>, KVcq<Tracked, 5>>(6); binary<KVectorView<Tracked>, KBounded<Tracked, 5>>(6);
    compared<KVector<Touchy>>(8); compared<KArrVec<Touchy, 8>>(8); compared<KArray<Touchy, 6>>(6); compared<KVcq<Touchy, 6>>(6); compared<KStdVector<Touchy>>(6); compared<KVectorView<Touchy>>(6);
    equality<KVector<Touchy>>(8); equality<KArrVec<Touchy, 8>>(8); equality<KArray<Touchy, 5>>(6);
#elif SLICE == 6
    fragile<efp::Vector<Tracked>>("Vector", 400);
    fragile<efp::Vector<Tracked, MonAlloc<Tracked>>>("Vector with an allocator", 200);
    fragile<efp::Vector<CopyOnly>>("Vector of copied elements", 300);
    fragile<efp::Vector<CopyOnly, MonAlloc<CopyOnly>>>("Vector of copied elements with an allocator", 200);
    fragile<efp::ArrVec<Tracked, 9>>("ArrVec", 400);
    fragile<efp::Array<Tracked, 3>>("Array", 300);
    fragile<efp::Vcb<Tracked, 3>>("Vcb", 300);
    fragile<efp::Vcb<Tracked, 1>>("Vcb of one", 100);
    fragile<efp::Vcq<Tracked, 4>>("Vcq", 300);
    fragile<efp::Tuple<Tracked, Tracked, Tracked>>("Tuple", 200);
    fragile<efp::Maybe<Tracked>>("Maybe", 200);
    fragile<efp::Enum<int, Tracked>>("Enum", 200);
    fragile<efp::Vector<efp::ArrVec<Tracked, 4>>>("Vector of ArrVec", 300);
    fragile<efp::ArrVec<efp::Vector<Tracked>, 7>>("ArrVec of Vector", 300);
#else
    sorts<Tracked>(20); sorts<int>(10); sorts<std::string>(6); sorts_by_operator(20);
    combinators(40);
    bounds(200);
#endif
    count("calls that threw", static_cast<uint64_t>(g_serial));
    sample(g_what);
    return finish();
}
