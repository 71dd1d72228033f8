// C07: higher-order functions equal their list definitions on every sequence type.
// SLICE selects a part of the (large) family of instantiations.
#include "seqs.hpp"

using namespace mon;

#ifndef SLICE
#define SLICE 0
#endif

typedef std::vector<std::vector<int>> Log;  // one entry per call: the arguments
static Log g_log;
static std::string g_what;

static void logged(std::initializer_list<int> xs) {
    g_log.push_back(std::vector<int>(xs));
}
static std::string show_log(const Log& l) {
    std::string s;
    for (size_t i = 0; i < l.size() && i < 12; ++i) s += show(l[i]);
    return s;
}
static void expect_log(const Log& want, const char* op) {
    count("call traces compared");
    if (g_log != want) violation(std::string("calls:") + op, g_what + " calls " + show_log(g_log) + " expected " + show_log(want));
    g_log.clear();
}
static void expect_list(const Model& got, const Model& want, const char* op) {
    count("results compared");
    if (got != want) violation(std::string("result:") + op, g_what + " gives " + show(got) + " expected " + show(want));
}
template<typename S> static void expect_same(const S& s, const Model& m, const char* op) {
    const Model got = shown(s);
    if (got != m) violation(std::string("input:") + op, g_what + " input is " + show(got) + " expected " + show(m));
}
static void expect_int(long got, long want, const char* op) {
    count("results compared");
    if (got != want) violation(std::string("result:") + op, g_what + sf(" gives %ld expected %ld", got, want));
}

template<typename A> static int get(const A& a) { return Val<A>::get(a); }

// function pointers, besides closures
template<typename A> static int fp_twice(const A& a) { logged({get(a)}); return get(a) * 2; }
template<typename A> static bool fp_odd(const A& a) { logged({get(a)}); return get(a) % 2 == 1; }

template<typename K> struct Mut {
    template<typename A> static void run(K& k, Model& m, std::true_type) {
        const Model before = m;
        Log all; for (size_t i = 0; i < m.size(); ++i) all.push_back({before[i]});
        efp::for_each_mut([](A& a) { logged({get(a)}); Val<A>::set(a, (get(a) + 7) % 100); }, k.seq());
        for (size_t i = 0; i < m.size(); ++i) m[i] = (m[i] + 7) % 100;
        expect_log(all, "for_each_mut");
        expect_same(k.cseq(), m, "for_each_mut");
        Log idx; for (size_t i = 0; i < m.size(); ++i) idx.push_back({static_cast<int>(i), m[i]});
        efp::for_each_with_index_mut([](size_t i, A& a) { logged({static_cast<int>(i), get(a)}); if (i % 2) Val<A>::set(a, 3); }, k.seq());
        for (size_t i = 1; i < m.size(); i += 2) m[i] = 3;
        expect_log(idx, "for_each_with_index_mut");
        expect_same(k.cseq(), m, "for_each_with_index_mut");
        Log c; for (size_t i = 0; i < m.size(); ++i) c.push_back({m[i]});
        efp::cartesian_for_each_mut([](A& a) { logged({get(a)}); Val<A>::set(a, 5); }, k.seq());
        for (size_t i = 0; i < m.size(); ++i) m[i] = 5;
        expect_log(c, "cartesian_for_each_mut/1");
        expect_same(k.cseq(), m, "cartesian_for_each_mut/1");
    }
    template<typename A> static void run(K&, Model&, std::false_type) {}
};

template<typename K>
static void unary(size_t n) {
    typedef typename K::Elem A;
    if (!wanted(K::name())) return;
    for (size_t t = 0; t < scaled(n); ++t) {
        Rng r(mix(st().seed * 17 + t, std::hash<std::string>()(K::name())));
        const Model m0 = list_for<K>(r, r.chance(2) ? 400 : 40);
        g_what = K::name() + show(m0);
        begin_case(g_what);
        { Log().swap(g_log); }
        HeapScope heap;
        {
            Model m = m0;
            K k(m, r);
            const typename K::Seq& s = k.cseq();
            Log once, index;
            for (size_t i = 0; i < m.size(); ++i) { once.push_back({m[i]}); index.push_back({static_cast<int>(i), m[i]}); }
            g_log.clear();
            Model want;
            // map
            for (int v : m) want.push_back(v + 5);
            expect_list(shown(efp::map([](const A& a) { logged({get(a)}); return get(a) + 5; }, s)), want, "map"); expect_log(once, "map");
            { const auto res = efp::map([](const A& a) { return Val<Tracked>::make(get(a) + 5); }, s); expect_list(shown(res), want, "map-tracked"); }
            want.clear(); for (int v : m) want.push_back(v * 2);
            expect_list(shown(efp::map(fp_twice<A>, s)), want, "map-function-pointer"); expect_log(once, "map-function-pointer");
            want = m;
            { const auto res = efp::map([](const A& a) { return a; }, s); expect_list(shown(res), want, "map-identity"); }
            // map_with_index
            want.clear(); for (size_t i = 0; i < m.size(); ++i) want.push_back(m[i] * 3 + static_cast<int>(i));
            expect_list(shown(efp::map_with_index([](size_t i, const A& a) { logged({static_cast<int>(i), get(a)}); return get(a) * 3 + static_cast<int>(i); }, s)), want, "map_with_index");
            expect_log(index, "map_with_index");
            // cartesian_map of one
            want.clear(); for (int v : m) want.push_back(v - 1);
            expect_list(shown(efp::cartesian_map([](const A& a) { logged({get(a)}); return get(a) - 1; }, s)), want, "cartesian_map/1"); expect_log(once, "cartesian_map/1");
            // filter
            const int cut = r.range(0, 100);
            want.clear(); for (int v : m) if (v < cut) want.push_back(v);
            expect_list(shown(efp::filter([cut](const A& a) { logged({get(a)}); return get(a) < cut; }, s)), want, "filter"); expect_log(once, "filter");
            want.clear(); for (int v : m) if (v % 2 == 1) want.push_back(v);
            expect_list(shown(efp::filter(fp_odd<A>, s)), want, "filter-function-pointer"); expect_log(once, "filter-function-pointer");
            // folds, not commutative
            long fl = 17; for (int v : m) fl = (fl * 31 + v) % 1000003;
            expect_int(efp::foldl([](long acc, const A& a) { logged({get(a)}); return (acc * 31 + get(a)) % 1000003; }, 17L, s), fl, "foldl"); expect_log(once, "foldl");
            long fr = 17; for (size_t i = m.size(); i > 0; --i) fr = (fr * 31 + m[i - 1]) % 1000003;
            Log rev(once.rbegin(), once.rend());
            expect_int(efp::foldr([](const A& a, long acc) { logged({get(a)}); return (acc * 31 + get(a)) % 1000003; }, 17L, s), fr, "foldr"); expect_log(rev, "foldr");
            {
                const std::string sl = efp::foldl([](const std::string& x, const A& a) { return "(" + x + std::to_string(get(a)) + ")"; }, std::string("z"), s);
                std::string wl = "z"; for (int v : m) wl = "(" + wl + std::to_string(v) + ")";
                const std::string sr = efp::foldr([](const A& a, const std::string& x) { return "(" + std::to_string(get(a)) + x + ")"; }, std::string("z"), s);
                std::string wr = "z"; for (size_t i = m.size(); i > 0; --i) wr = "(" + std::to_string(m[i - 1]) + wr + ")";
                if (sl != wl) violation("result:foldl-string", g_what + " gives " + sl);
                if (sr != wr) violation("result:foldr-string", g_what + " gives " + sr);
                const Tracked tk = efp::foldl([](const Tracked& x, const A& a) { return Tracked((x.get() * 7 + get(a)) % 1009); }, Tracked(1), s);
                int wt = 1; for (int v : m) wt = (wt * 7 + v) % 1009;
                expect_int(tk.get(), wt, "foldl-tracked");
            }
            // for_each
            efp::for_each([](const A& a) { logged({get(a)}); }, s); expect_log(once, "for_each");
            efp::for_each_with_index([](size_t i, const A& a) { logged({static_cast<int>(i), get(a)}); }, s); expect_log(index, "for_each_with_index");
            efp::cartesian_for_each([](const A& a) { logged({get(a)}); }, s); expect_log(once, "cartesian_for_each/1");
            // append of one and of itself
            expect_list(shown(efp::append(s, s)), [&] { Model w = m; w.insert(w.end(), m.begin(), m.end()); return w; }(), "append-self");
            expect_list(shown(efp::append(s)), m, "append/1");
            expect_same(s, m, "reading functions");
            Mut<K>::template run<A>(k, m, std::integral_constant<bool, K::mut>());
        }
        { Log().swap(g_log); }
        heap.stop();
        heap.expect_balanced(K::name().c_str());
        expect_no_live(K::name().c_str());
        uint64_t h = std::hash<std::string>()(K::name());
        for (int v : m0) h = mix(h, static_cast<uint64_t>(v));
        seen(h);
    }
    count("unary cases of " + K::name(), scaled(n));
}

template<typename K, typename L> struct Mut2 {
    template<typename A, typename B> static void run(K& k, L& l, Model& m, Model& o, std::true_type) {
        const size_t n = std::min(m.size(), o.size());
        Log w; for (size_t i = 0; i < n; ++i) w.push_back({m[i], o[i]});
        efp::for_each_mut([](A& a, B& b) { logged({get(a), get(b)}); const int t = get(a); Val<A>::set(a, get(b)); Val<B>::set(b, t); }, k.seq(), l.seq());
        for (size_t i = 0; i < n; ++i) std::swap(m[i], o[i]);
        expect_log(w, "for_each_mut/2"); expect_same(k.cseq(), m, "for_each_mut/2"); expect_same(l.cseq(), o, "for_each_mut/2");
        Log x; for (size_t i = 0; i < n; ++i) x.push_back({static_cast<int>(i), m[i], o[i]});
        efp::for_each_with_index_mut([](size_t i, A& a, B& b) { logged({static_cast<int>(i), get(a), get(b)}); Val<A>::set(a, static_cast<int>(i) % 90); Val<B>::set(b, 4); }, k.seq(), l.seq());
        for (size_t i = 0; i < n; ++i) { m[i] = static_cast<int>(i) % 90; o[i] = 4; }
        expect_log(x, "for_each_with_index_mut/2"); expect_same(k.cseq(), m, "for_each_with_index_mut/2"); expect_same(l.cseq(), o, "for_each_with_index_mut/2");
        Log c;
        for (size_t i = 0; i < m.size(); ++i) for (size_t j = 0; j < o.size(); ++j) { c.push_back({m[i], o[j]}); m[i] = (m[i] + o[j]) % 60; o[j] = (o[j] + 1) % 50; }
        efp::cartesian_for_each_mut([](A& a, B& b) { logged({get(a), get(b)}); Val<A>::set(a, (get(a) + get(b)) % 60); Val<B>::set(b, (get(b) + 1) % 50); }, k.seq(), l.seq());
        expect_log(c, "cartesian_for_each_mut/2"); expect_same(k.cseq(), m, "cartesian_for_each_mut/2"); expect_same(l.cseq(), o, "cartesian_for_each_mut/2");
    }
    template<typename A, typename B> static void run(K&, L&, Model&, Model&, std::false_type) {}
};

template<typename K, typename L>
static void binary(size_t n) {
    typedef typename K::Elem A;
    typedef typename L::Elem B;
    for (size_t t = 0; t < scaled(n); ++t) {
        Rng r(mix(st().seed * 19 + t, std::hash<std::string>()(K::name() + L::name())));
        const Model m0 = list_for<K>(r, 12), o0 = list_for<L>(r, 12);
        g_what = K::name() + show(m0) + " " + L::name() + show(o0);
        begin_case(g_what);
        { Log().swap(g_log); }
        HeapScope heap;
        {
            Model m = m0, o = o0;
            K k(m, r);
            L l(o, r);
            g_log.clear();
            const size_t nn = std::min(m.size(), o.size());
            Log pairs, index, cart;
            Model w1, w2, wc, wa = m;
            for (size_t i = 0; i < nn; ++i) { pairs.push_back({m[i], o[i]}); index.push_back({static_cast<int>(i), m[i], o[i]}); w1.push_back(m[i] * 100 + o[i]); w2.push_back(m[i] * 100 + o[i] + static_cast<int>(i)); }
            for (int a : m) for (int b : o) { cart.push_back({a, b}); wc.push_back(a * 100 + b); }
            wa.insert(wa.end(), o.begin(), o.end());
            expect_list(shown(efp::map([](const A& a, const B& b) { logged({get(a), get(b)}); return get(a) * 100 + get(b); }, k.cseq(), l.cseq())), w1, "map/2"); expect_log(pairs, "map/2");
            expect_list(shown(efp::map_with_index([](size_t i, const A& a, const B& b) { logged({static_cast<int>(i), get(a), get(b)}); return get(a) * 100 + get(b) + static_cast<int>(i); }, k.cseq(), l.cseq())), w2, "map_with_index/2"); expect_log(index, "map_with_index/2");
            expect_list(shown(efp::cartesian_map([](const A& a, const B& b) { logged({get(a), get(b)}); return get(a) * 100 + get(b); }, k.cseq(), l.cseq())), wc, "cartesian_map/2"); expect_log(cart, "cartesian_map/2");
            efp::for_each([](const A& a, const B& b) { logged({get(a), get(b)}); }, k.cseq(), l.cseq()); expect_log(pairs, "for_each/2");
            efp::for_each_with_index([](size_t i, const A& a, const B& b) { logged({static_cast<int>(i), get(a), get(b)}); }, k.cseq(), l.cseq()); expect_log(index, "for_each_with_index/2");
            efp::cartesian_for_each([](const A& a, const B& b) { logged({get(a), get(b)}); }, k.cseq(), l.cseq()); expect_log(cart, "cartesian_for_each/2");
            expect_list(shown(efp::append(k.cseq(), l.cseq())), wa, "append/2");
            expect_same(k.cseq(), m, "reading functions/2"); expect_same(l.cseq(), o, "reading functions/2");
            Mut2<K, L>::template run<A, B>(k, l, m, o, std::integral_constant<bool, K::mut && L::mut>());
        }
        { Log().swap(g_log); }
        heap.stop();
        heap.expect_balanced(g_what.c_str());
        expect_no_live(g_what.c_str());
        uint64_t h = std::hash<std::string>()(K::name() + L::name());
        for (int v : m0) h = mix(h, static_cast<uint64_t>(v));
        for (int v : o0) h = mix(h, static_cast<uint64_t>(v) * 7);
        seen(h);
    }
    count("pairs of sequence types");
    count("binary cases", scaled(n));
}
template<typename K, typename... Ls>
static void with_all(size_t n, List<Ls...>) {
    int d[] = {(binary<K, Ls>(n), 0)...};
    (void)d;
}

template<typename K, typename L, typename M>
static void ternary(size_t n) {
    typedef typename K::Elem A;
    typedef typename L::Elem B;
    typedef typename M::Elem C;
    for (size_t t = 0; t < scaled(n); ++t) {
        Rng r(mix(st().seed * 23 + t, std::hash<std::string>()(K::name() + L::name() + M::name())));
        const Model m = list_for<K>(r, 5), o = list_for<L>(r, 5), q = list_for<M>(r, 5);
        g_what = K::name() + show(m) + " " + L::name() + show(o) + " " + M::name() + show(q);
        begin_case(g_what);
        K k(m, r);
        L l(o, r);
        M x(q, r);
        g_log.clear();
        const size_t nn = std::min(std::min(m.size(), o.size()), q.size());
        Log w, wi, cart;
        Model w1, wc, wa = m;
        for (size_t i = 0; i < nn; ++i) { w.push_back({m[i], o[i], q[i]}); wi.push_back({static_cast<int>(i), m[i], o[i], q[i]}); w1.push_back(m[i] * 10000 + o[i] * 100 + q[i]); }
        for (int a : m) for (int b : o) for (int c : q) { cart.push_back({a, b, c}); wc.push_back(a * 10000 + b * 100 + c); }
        wa.insert(wa.end(), o.begin(), o.end());
        wa.insert(wa.end(), q.begin(), q.end());
        const auto f = [](const A& a, const B& b, const C& c) { logged({get(a), get(b), get(c)}); return get(a) * 10000 + get(b) * 100 + get(c); };
        const auto fi = [](size_t i, const A& a, const B& b, const C& c) { logged({static_cast<int>(i), get(a), get(b), get(c)}); return get(a) * 10000 + get(b) * 100 + get(c); };
        expect_list(shown(efp::map(f, k.cseq(), l.cseq(), x.cseq())), w1, "map/3"); expect_log(w, "map/3");
        expect_list(shown(efp::map_with_index(fi, k.cseq(), l.cseq(), x.cseq())), w1, "map_with_index/3"); expect_log(wi, "map_with_index/3");
        expect_list(shown(efp::cartesian_map(f, k.cseq(), l.cseq(), x.cseq())), wc, "cartesian_map/3"); expect_log(cart, "cartesian_map/3");
        efp::for_each([&](const A& a, const B& b, const C& c) { f(a, b, c); }, k.cseq(), l.cseq(), x.cseq()); expect_log(w, "for_each/3");
        efp::for_each_with_index([&](size_t i, const A& a, const B& b, const C& c) { fi(i, a, b, c); }, k.cseq(), l.cseq(), x.cseq()); expect_log(wi, "for_each_with_index/3");
        efp::cartesian_for_each([&](const A& a, const B& b, const C& c) { f(a, b, c); }, k.cseq(), l.cseq(), x.cseq()); expect_log(cart, "cartesian_for_each/3");
        expect_list(shown(efp::append(k.cseq(), l.cseq(), x.cseq())), wa, "append/3");
        expect_same(k.cseq(), m, "ternary"); expect_same(l.cseq(), o, "ternary"); expect_same(x.cseq(), q, "ternary");
        uint64_t h = std::hash<std::string>()(g_what);
        seen(h);
        count("ternary cases");
    }
}

// ---- concat and intercalate: outer kind x inner type
template<typename In> struct Inner;  // builds one inner sequence
template<typename A, size_t n> struct Inner<efp::Array<A, n>> {
    static Model list(Rng& r) { Model m(n); for (int& v : m) v = r.range(1, 99); return m; }
    static efp::Array<A, n> make(const Model& m) { efp::Array<A, n> a; for (size_t i = 0; i < n; ++i) a[i] = Val<A>::make(m[i]); return a; }
};
template<typename A, size_t n> struct Inner<efp::ArrVec<A, n>> {
    static Model list(Rng& r) { Model m(r.below(n + 1)); for (int& v : m) v = r.range(1, 99); return m; }
    static efp::ArrVec<A, n> make(const Model& m) { efp::ArrVec<A, n> a; for (int v : m) a.push_back(Val<A>::make(v)); return a; }
};
template<typename A> struct Inner<efp::Vector<A>> {
    static Model list(Rng& r) { Model m(r.below(6)); for (int& v : m) v = r.range(1, 99); return m; }
    static efp::Vector<A> make(const Model& m) { efp::Vector<A> a; for (int v : m) a.push_back(Val<A>::make(v)); return a; }
};
template<typename A> struct Inner<std::vector<A>> {
    static Model list(Rng& r) { Model m(r.below(6)); for (int& v : m) v = r.range(1, 99); return m; }
    static std::vector<A> make(const Model& m) { std::vector<A> a; for (int v : m) a.push_back(Val<A>::make(v)); return a; }
};
template<typename Out> struct Outer;
template<typename In, size_t n> struct Outer<efp::Array<In, n>> {
    static size_t len(Rng&) { return n; }
    static void put(efp::Array<In, n>& o, size_t i, const In& in) { o[i] = in; }
};
template<typename In, size_t n> struct Outer<efp::ArrVec<In, n>> {
    static size_t len(Rng& r) { return r.below(n + 1); }
    static void put(efp::ArrVec<In, n>& o, size_t, const In& in) { o.push_back(in); }
};
template<typename In> struct Outer<efp::Vector<In>> {
    static size_t len(Rng& r) { return r.below(6); }
    static void put(efp::Vector<In>& o, size_t, const In& in) { o.push_back(in); }
};
template<typename In> struct Outer<std::vector<In>> {
    static size_t len(Rng& r) { return r.below(6); }
    static void put(std::vector<In>& o, size_t, const In& in) { o.push_back(in); }
};

template<typename Out, typename In, typename D>
static void nested(const char* name, size_t n) {
    for (size_t t = 0; t < scaled(n); ++t) {
        Rng r(mix(st().seed * 29 + t, std::hash<std::string>()(name)));
        { Log().swap(g_log); }
        HeapScope heap;
        {
            Out out;
            std::vector<Model> ms;
            const size_t len = Outer<Out>::len(r);
            Model flat, inter;
            const Model dm = Inner<D>::list(r);
            const D d = Inner<D>::make(dm);
            uint64_t h = std::hash<std::string>()(name);
            for (size_t i = 0; i < len; ++i) {
                const Model m = Inner<In>::list(r);
                Outer<Out>::put(out, i, Inner<In>::make(m));
                ms.push_back(m);
                flat.insert(flat.end(), m.begin(), m.end());
                if (i) inter.insert(inter.end(), dm.begin(), dm.end());
                inter.insert(inter.end(), m.begin(), m.end());
                h = mix(h, m.size());
                for (int v : m) h = mix(h, static_cast<uint64_t>(v));
            }
            g_what = std::string(name) + show(flat) + sf(" from %zu, delimiter ", len) + show(dm);
            begin_case(g_what);
            const Out& c = out;
            expect_list(shown(efp::concat(c)), flat, "concat");
            expect_list(shown(efp::intercalate(d, c)), inter, "intercalate");
            for (size_t i = 0; i < len; ++i) if (shown(efp::nth(i, c)) != ms[i]) violation("input:concat", g_what);
            if (shown(d) != dm) violation("input:intercalate", g_what);
            seen(mix(h, dm.size()));
            std::string().swap(g_what);
        }
        heap.stop();
        heap.expect_balanced(name);
        expect_no_live(name);
    }
    count("nested cases", scaled(n));
}
template<typename A>
static void nested_all(const char* an, size_t n) {
    typedef efp::Array<A, 3> IA; typedef efp::ArrVec<A, 4> IV; typedef efp::Vector<A> ID;
    const std::string s = an;
#define NEST(OUT, IN, D) nested<OUT, IN, D>((s + " " #OUT " " #IN " " #D).c_str(), n)
    typedef efp::Array<IA, 2> AA; typedef efp::Array<IV, 3> AV; typedef efp::Array<ID, 2> AD;
    typedef efp::ArrVec<IA, 4> VA; typedef efp::ArrVec<IV, 3> VV; typedef efp::ArrVec<ID, 3> VD;
    typedef efp::Vector<IA> DA; typedef efp::Vector<IV> DV; typedef efp::Vector<ID> DD;
    typedef std::vector<IV> SV;
    NEST(AA, IA, IA); NEST(AA, IA, IV); NEST(AV, IV, IA); NEST(AD, ID, ID); NEST(AV, IV, ID);
    NEST(VA, IA, IA); NEST(VV, IV, IV); NEST(VD, ID, IA); NEST(VA, IA, IV); NEST(VV, IV, IA);
    NEST(DA, IA, IA); NEST(DV, IV, ID); NEST(DD, ID, ID); NEST(DD, ID, IV); NEST(SV, IV, IA);
}

static void generators(size_t n) {
    for (size_t t = 0; t < scaled(n); ++t) {
        Rng r(st().seed * 37 + t);
        const size_t len = r.chance(10) ? 0 : r.below(60);
        g_what = sf("length %zu", len);
        begin_case("generators " + g_what);
        Log idx; Model want;
        for (size_t i = 0; i < len; ++i) { idx.push_back({static_cast<int>(i)}); want.push_back(static_cast<int>(i) * 3 + 1); }
        g_log.clear();
        const auto f = [](size_t i) { logged({static_cast<int>(i)}); return static_cast<int>(i) * 3 + 1; };
        expect_list(shown(efp::from_function(len, f)), want, "from_function"); expect_log(idx, "from_function");
        expect_list(shown(efp::from_function(static_cast<int>(len), f)), want, "from_function-int"); expect_log(idx, "from_function-int");
        { const auto v = efp::from_function(len, [](size_t i) { return Val<Tracked>::make(static_cast<int>(i) * 3 + 1); }); expect_list(shown(v), want, "from_function-tracked"); }
        efp::for_index([](size_t i) { logged({static_cast<int>(i)}); }, len); expect_log(idx, "for_index");
        efp::cartesian_for_index([](size_t i) { logged({static_cast<int>(i)}); }, len); expect_log(idx, "cartesian_for_index/1");
        const size_t a = r.below(6), b = r.below(6), c = r.below(6);
        Log two, three;
        for (size_t i = 0; i < a; ++i) for (size_t j = 0; j < b; ++j) { two.push_back({static_cast<int>(i), static_cast<int>(j)}); for (size_t k = 0; k < c; ++k) three.push_back({static_cast<int>(i), static_cast<int>(j), static_cast<int>(k)}); }
        g_what = sf("%zu %zu %zu", a, b, c);
        efp::cartesian_for_index([](size_t i, size_t j) { logged({static_cast<int>(i), static_cast<int>(j)}); }, a, b); expect_log(two, "cartesian_for_index/2");
        efp::cartesian_for_index([](size_t i, size_t j, size_t k) { logged({static_cast<int>(i), static_cast<int>(j), static_cast<int>(k)}); }, a, b, c); expect_log(three, "cartesian_for_index/3");
        seen(mix(mix(len, a), mix(b, c)));
        {   // append converts to the common type
            efp::Vector<int> vi; efp::ArrVec<double, 8> vd; efp::Array<uint8_t, 2> vu; vu[0] = 250; vu[1] = 7;
            std::vector<double> w;
            for (size_t i = 0; i < a; ++i) { vi.push_back(static_cast<int>(i) - 3); w.push_back(static_cast<int>(i) - 3); }
            for (size_t i = 0; i < b; ++i) { vd.push_back(0.25 * static_cast<double>(i)); w.push_back(0.25 * static_cast<double>(i)); }
            w.push_back(250); w.push_back(7);
            const efp::Vector<double> res = efp::append(vi, vd, vu);
            bool ok = res.size() == w.size();
            for (size_t i = 0; ok && i < w.size(); ++i) ok = res[i] == w[i];
            if (!ok) violation("result:append-mixed", g_what);
        }
    }
    // static lengths
    begin_case("generators static");
    Log idx; Model want;
    for (int i = 0; i < 9; ++i) { idx.push_back({i}); want.push_back(i * 3 + 1); }
    const auto f = [](size_t i) { logged({static_cast<int>(i)}); return static_cast<int>(i) * 3 + 1; };
    g_what = "static 9";
    expect_list(shown(efp::from_function(efp::Size<9>{}, f)), want, "from_function-Size"); expect_log(idx, "from_function-Size");
    expect_list(shown(efp::from_function(efp::Int<9>{}, f)), want, "from_function-Int"); expect_log(idx, "from_function-Int");
    expect_no_live("generators");
}

template<typename A, typename B> struct Two {
    typedef List<KArray<B, 4>, KArrVec<B, 6>, KVector<B>, KVectorView<B>, KVcq<B, 5>, KStdVector<B>, KStdArray<B, 3>, KBounded<B, 7>, KOpen<B>> Right;
};

int main(int argc, char** argv) {
    init(argc, argv);
    heap_install();
#if SLICE == 0
    unary<KArray<int, 4>>(60); unary<KArray<int, 1>>(30); unary<KArrVec<int, 6>>(80); unary<KArrVec<int, 1>>(30); unary<KVector<int>>(150);
    unary<KArrayView<int, 4>>(40); unary<KArrVecView<int, 6>>(60); unary<KVectorView<int>>(80); unary<KConstView<int>>(60);
    unary<KVcb<int, 4>>(60); unary<KVcq<int, 6>>(80);
    unary<KStdArray<int, 4>>(40); unary<KStdVector<int>>(80); unary<KFixed<int, 4>>(40); unary<KBounded<int, 6>>(60); unary<KOpen<int>>(60);
    generators(150);
#elif SLICE == 1
    unary<KArray<Tracked, 4>>(60); unary<KArrVec<Tracked, 6>>(80); unary<KVector<Tracked>>(100); unary<KVectorView<Tracked>>(40);
    unary<KVcb<Tracked, 4>>(60); unary<KVcq<Tracked, 6>>(80); unary<KStdVector<CopyOnly>>(40); unary<KOpen<Tracked>>(40);
    unary<KVector<CopyOnly>>(60); unary<KString>(60); unary<KStdString>(40); unary<KStringView>(40); unary<KVector<std::string>>(60); unary<KVector<uint8_t>>(40); unary<KArrVec<Odd, 5>>(40);
#elif SLICE == 2
    with_all<KArray<int, 4>>(20, Two<int, int>::Right()); with_all<KArrVec<int, 6>>(20, Two<int, int>::Right());
    with_all<KVector<int>>(20, Two<int, int>::Right());
    with_all<KArray<int, 2>>(20, List<KArray<int, 7>, KFixed<int, 2>, KVcb<int, 5>>());
#elif SLICE == 3
    with_all<KVcq<int, 6>>(20, Two<int, int>::Right()); with_all<KStdVector<int>>(20, Two<int, int>::Right());
    with_all<KVcb<int, 3>>(20, List<KArray<int, 7>, KArrVec<int, 4>, KVector<int>>());
#elif SLICE == 4
    with_all<KOpen<int>>(20, Two<int, int>::Right()); with_all<KBounded<int, 5>>(20, Two<int, int>::Right()); with_all<KFixed<int, 5>>(20, List<KArrVec<int, 9>, KVector<int>>());
#elif SLICE == 5
    nested_all<int>("int", 30);
    nested_all<Tracked>("Tracked", 25);
#elif SLICE == 6
    ternary<KArray<int, 3>, KArrVec<int, 4>, KVector<int>>(60);
    ternary<KVector<int>, KVector<int>, KVector<int>>(60);
    ternary<KArray<int, 3>, KArray<int, 4>, KArray<int, 2>>(30);
    ternary<KArrVec<int, 3>, KArrVec<int, 5>, KArray<int, 2>>(60);
    ternary<KVcq<int, 4>, KStdVector<int>, KOpen<int>>(60);
    ternary<KVectorView<int>, KVcb<int, 3>, KArrVec<int, 4>>(60);
    binary<KVector<Tracked>, KArrVec<Tracked, 6>>(60); binary<KArrVec<Tracked, 6>, KArray<Tracked, 4>>(60);
    binary<KVector<int>, KVector<uint8_t>>(60); binary<KArray<char, 3>, KArrVec<int, 5>>(60);
    binary<KVcq<Tracked, 4>, KVector<Tracked>>(60); binary<KString, KStdString>(60); binary<KStringView, KString>(60);
#endif
    sample(g_what);
    return finish();
}
