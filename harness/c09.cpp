// C09: results are allocated on the heap only when their capacity is dynamic.
#include "seqs.hpp"

using namespace mon;

#ifndef SLICE
#define SLICE 0
#endif

static std::string g_what;

// What a result type is, as seen by the program that receives it
struct Shape { int fam; size_t n; };  // 0 Array, 1 ArrVec, 2 Vector, 3 ArrayView, 4 ArrVecView, 5 VectorView, 9 other
template<typename T> struct ShapeOf { static Shape get() { return Shape{9, 0}; } };
template<typename A, size_t n> struct ShapeOf<efp::Array<A, n>> { static Shape get() { return Shape{0, n}; } };
template<typename A, size_t n> struct ShapeOf<efp::ArrVec<A, n>> { static Shape get() { return Shape{1, n}; } };
template<typename A> struct ShapeOf<efp::Vector<A>> { static Shape get() { return Shape{2, 0}; } };
template<typename A, size_t n> struct ShapeOf<efp::ArrayView<A, n>> { static Shape get() { return Shape{3, n}; } };
template<typename A, size_t n> struct ShapeOf<efp::ArrVecView<A, n>> { static Shape get() { return Shape{4, n}; } };
template<typename A> struct ShapeOf<efp::VectorView<A>> { static Shape get() { return Shape{5, 0}; } };
static std::string show_shape(Shape s) {
    static const char* f[] = {"Array", "ArrVec", "Vector", "ArrayView", "ArrVecView", "VectorView", "?", "?", "?", "another type"};
    return sf("%s<%zu>", f[s.fam], s.n);
}
// static size, else static capacity, else neither
static Shape owned(size_t size, size_t cap) { return size != DYN ? Shape{0, size} : cap != DYN ? Shape{1, cap} : Shape{2, 0}; }

template<typename F>
static void measure(const char* op, Shape want, int64_t most, size_t len, const F& f) {
    typedef typename std::remove_cv<decltype(f())>::type R;
    const Shape got = ShapeOf<R>::get();
    if (got.fam != want.fam || got.n != want.n)
        violation(std::string("type:") + op, g_what + " returns " + show_shape(got) + ", expected " + show_shape(want));
    const uint64_t a0 = Heap::allocs();
    {
        const R r = f();
        const uint64_t a1 = Heap::allocs();
        const int64_t n = static_cast<int64_t>(a1 - a0);
        if (n > most) violation(std::string("allocations:") + op, g_what + sf(" made %lld heap allocations, at most %lld are allowed (result %s)", static_cast<long long>(n), static_cast<long long>(most), show_shape(got).c_str()));
        count("heap allocations observed", static_cast<uint64_t>(n));
        using efp::length;
        if (length(r) != len) violation(std::string("length:") + op, g_what + sf(" has length %zu, expected %zu", static_cast<size_t>(length(r)), len));
        if (efp::IsStaticCapacity<R>::value && len > efp::CtCapacity<R>::value) violation(std::string("capacity:") + op, g_what);
    }
    count("results measured");
}
// a function without a sequence as its result
template<typename F>
static void silent(const char* op, const F& f) {
    const uint64_t a0 = Heap::allocs();
    f();
    const uint64_t n = Heap::allocs() - a0;
    count("operations measured");
    if (n) violation(std::string("allocations:") + op, g_what + sf(" made %llu heap allocations", static_cast<unsigned long long>(n)));
}

static int64_t limit(Shape s) { return s.fam == 2 ? 1 : 0; }

static size_t mn(size_t a, size_t b) { return a < b ? a : b; }
static size_t add(size_t a, size_t b) { return a == DYN || b == DYN ? DYN : a + b; }
static size_t mul(size_t a, size_t b) { return a == DYN || b == DYN ? DYN : a * b; }
static size_t both_min(size_t a, size_t b) { return a == DYN || b == DYN ? DYN : mn(a, b); }
static size_t sub(size_t a, size_t b) { return a == DYN ? DYN : a > b ? a - b : 0; }

static volatile int g_sink;

template<size_t n, typename S> static void static_views(const S& s, size_t size, size_t cap, size_t len) {
    const efp::Size<n> c{};
    const Shape t = size != DYN ? Shape{3, mn(n, size)} : Shape{4, cap != DYN ? mn(n, cap) : n};
    const Shape d = size != DYN ? Shape{3, sub(size, n)} : cap != DYN ? Shape{4, sub(cap, n)} : Shape{5, 0};
    measure("take-static", t, 0, mn(n, len), [&] { return efp::take(c, s); });
    measure("drop-static", d, 0, sub(len, n), [&] { return efp::drop(c, s); });
}

template<typename K>
static void unary(size_t n) {
    typedef typename K::Elem A;
    if (!wanted(K::name())) return;
    const size_t size = K::ct_size, cap = K::ct_cap;
    for (size_t t = 0; t < scaled(n); ++t) {
        Rng r(mix(st().seed * 41 + t, std::hash<std::string>()(K::name())));
        Model m = list_for<K>(r, r.chance(2) ? 700 : 40);
        if (t == 0 && cap != DYN) m.assign(cap, 5);   // filled to the brim
        if (t == 1 && K::fits(0)) m.clear();
        g_what = K::name() + show(m);
        begin_case(g_what);
        const size_t len = m.size();
        K k(m, r);
        const typename K::Seq& s = k.cseq();
        const Shape same = owned(size, cap), upto = owned(DYN, cap);
        const auto f = [](const A& a) { return Val<A>::get(a) + 1; };
        const auto fi = [](size_t i, const A& a) { return Val<A>::get(a) + static_cast<int>(i); };
        const int cut = r.range(0, 100);
        size_t below = 0; for (int v : m) below += v < cut;
        measure("map", same, limit(same), len, [&] { return efp::map(f, s); });
        measure("map_with_index", same, limit(same), len, [&] { return efp::map_with_index(fi, s); });
        measure("cartesian_map", same, limit(same), len, [&] { return efp::cartesian_map(f, s); });
        measure("filter", upto, upto.fam == 2 ? 1000 : 0, below, [&] { return efp::filter([cut](const A& a) { return Val<A>::get(a) < cut; }, s); });
        measure("append/1", same, limit(same), len, [&] { return efp::append(s); });
        measure("append-self", owned(add(size, size), add(cap, cap)), limit(same), 2 * len, [&] { return efp::append(s, s); });
        measure("append-thrice", owned(add(size, add(size, size)), add(cap, add(cap, cap))), limit(same), 3 * len, [&] { return efp::append(s, s, s); });
        if (len) {
            size_t all = 0; for (int v : m) all += v == m[0];
            const A key = Val<A>::make(m[0]);
            measure("elem_indices", upto, upto.fam == 2 ? 1000 : 0, all, [&] { return efp::elem_indices(key, s); });
            silent("elem", [&] { g_sink = efp::elem(key, s); });
            silent("elem_index", [&] { g_sink = static_cast<int>(efp::elem_index(key, s).value()); });
        }
        measure("find_indices", upto, upto.fam == 2 ? 1000 : 0, below, [&] { return efp::find_indices([cut](const A& a) { return Val<A>::get(a) < cut; }, s); });
        silent("find", [&] { g_sink = efp::find([cut](const A& a) { return Val<A>::get(a) < cut; }, s); });
        silent("find_index", [&] { g_sink = static_cast<bool>(efp::find_index([cut](const A& a) { return Val<A>::get(a) < cut; }, s)); });
        silent("foldl", [&] { g_sink = efp::foldl([](int a, const A& b) { return (a + Val<A>::get(b)) % 1000; }, 0, s); });
        silent("foldr", [&] { g_sink = efp::foldr([](const A& b, int a) { return (a + Val<A>::get(b)) % 1000; }, 0, s); });
        silent("for_each", [&] { efp::for_each([](const A& a) { g_sink = Val<A>::get(a); }, s); });
        silent("for_each_with_index", [&] { efp::for_each_with_index([](size_t, const A& a) { g_sink = Val<A>::get(a); }, s); });
        silent("cartesian_for_each", [&] { efp::cartesian_for_each([](const A& a, const A& b) { g_sink = Val<A>::get(a) + Val<A>::get(b); }, s, s); });
        // views
        const Shape view = cap != DYN ? Shape{4, cap} : Shape{5, 0};
        const size_t c = r.below(len + 2), kk = mn(c, len);
        measure("take", view, 0, kk, [&] { return efp::take(c, s); });
        measure("drop", view, 0, len - kk, [&] { return efp::drop(c, s); });
        measure("slice", view, 0, len ? mn(c, len) - mn(1, mn(c, len)) : 0, [&] { return efp::slice(static_cast<size_t>(1), c, s); });
        size_t w = 0; while (w < len && m[w] < cut) ++w;
        measure("take_while", view, 0, w, [&] { return efp::take_while([cut](const A& a) { return Val<A>::get(a) < cut; }, s); });
        measure("drop_while", view, 0, len - w, [&] { return efp::drop_while([cut](const A& a) { return Val<A>::get(a) < cut; }, s); });
        if (len) {
            const Shape less = size != DYN ? Shape{3, size - 1} : cap != DYN ? Shape{4, cap - 1} : Shape{5, 0};
            measure("tail", less, 0, len - 1, [&] { return efp::tail(s); });
            measure("init", less, 0, len - 1, [&] { return efp::init(s); });
            silent("head", [&] { g_sink = Val<A>::get(efp::head(s)) + Val<A>::get(efp::last(s)); });
        }
        static_views<0>(s, size, cap, len); static_views<1>(s, size, cap, len); static_views<3>(s, size, cap, len); static_views<50>(s, size, cap, len);
        uint64_t h = std::hash<std::string>()(K::name());
        for (int v : m) h = mix(h, static_cast<uint64_t>(v));
        seen(h);
    }
}

template<typename K, typename L>
static void binary(size_t n) {
    typedef typename K::Elem A;
    typedef typename L::Elem B;
    for (size_t t = 0; t < scaled(n); ++t) {
        Rng r(mix(st().seed * 43 + t, std::hash<std::string>()(K::name() + L::name())));
        Model m = list_for<K>(r, r.chance(2) ? 300 : 12), o = list_for<L>(r, 12);
        if (t == 0) { if (K::ct_cap != DYN) m.assign(K::ct_cap, 5); if (L::ct_cap != DYN) o.assign(L::ct_cap, 7); }
        g_what = K::name() + show(m) + " " + L::name() + show(o);
        begin_case(g_what);
        K k(m, r);
        L l(o, r);
        const size_t ks = K::ct_size, ls = L::ct_size, kc = K::ct_cap, lc = L::ct_cap;
        const Shape sm = owned(both_min(ks, ls), both_min(kc, lc)), ap = owned(add(ks, ls), add(kc, lc)), ct = owned(mul(ks, ls), mul(kc, lc));
        const auto f = [](const A& a, const B& b) { return Val<A>::get(a) + Val<B>::get(b); };
        measure("map/2", sm, limit(sm), mn(m.size(), o.size()), [&] { return efp::map(f, k.cseq(), l.cseq()); });
        measure("map_with_index/2", sm, limit(sm), mn(m.size(), o.size()), [&] { return efp::map_with_index([](size_t, const A& a, const B& b) { return Val<A>::get(a) - Val<B>::get(b); }, k.cseq(), l.cseq()); });
        measure("cartesian_map/2", ct, limit(ct), m.size() * o.size(), [&] { return efp::cartesian_map(f, k.cseq(), l.cseq()); });
        measure("append/2", ap, limit(ap), m.size() + o.size(), [&] { return efp::append(k.cseq(), l.cseq()); });
        silent("for_each/2", [&] { efp::for_each([](const A& a, const B& b) { g_sink = Val<A>::get(a) + Val<B>::get(b); }, k.cseq(), l.cseq()); });
        seen(mix(std::hash<std::string>()(g_what), 0));
    }
}
template<typename K, typename... Ls>
static void with_all(size_t n, List<Ls...>) { const int x[] = {(binary<K, Ls>(n), 0)...}; (void)x; }

template<typename K, typename L, typename M>
static void ternary(size_t n) {
    typedef typename K::Elem A; typedef typename L::Elem B; typedef typename M::Elem C;
    for (size_t t = 0; t < scaled(n); ++t) {
        Rng r(mix(st().seed * 47 + t, std::hash<std::string>()(K::name() + L::name() + M::name())));
        const Model a = list_for<K>(r, 6), b = list_for<L>(r, 6), c = list_for<M>(r, 6);
        g_what = K::name() + show(a) + " " + L::name() + show(b) + " " + M::name() + show(c);
        begin_case(g_what);
        K k(a, r); L l(b, r); M q(c, r);
        const Shape sm = owned(both_min(K::ct_size, both_min(L::ct_size, M::ct_size)), both_min(K::ct_cap, both_min(L::ct_cap, M::ct_cap)));
        const Shape ap = owned(add(K::ct_size, add(L::ct_size, M::ct_size)), add(K::ct_cap, add(L::ct_cap, M::ct_cap)));
        const Shape ct = owned(mul(K::ct_size, mul(L::ct_size, M::ct_size)), mul(K::ct_cap, mul(L::ct_cap, M::ct_cap)));
        const auto f = [](const A& x, const B& y, const C& z) { return Val<A>::get(x) + Val<B>::get(y) * Val<C>::get(z); };
        measure("map/3", sm, limit(sm), mn(a.size(), mn(b.size(), c.size())), [&] { return efp::map(f, k.cseq(), l.cseq(), q.cseq()); });
        measure("cartesian_map/3", ct, limit(ct), a.size() * b.size() * c.size(), [&] { return efp::cartesian_map(f, k.cseq(), l.cseq(), q.cseq()); });
        measure("append/3", ap, limit(ap), a.size() + b.size() + c.size(), [&] { return efp::append(k.cseq(), l.cseq(), q.cseq()); });
        seen(std::hash<std::string>()(g_what));
    }
}

// concat, intercalate
template<typename O, typename I, typename D>
static void nest(const char* name, size_t os, size_t oc, size_t is, size_t ic, size_t ds, size_t dc, const O& o, const D& d, size_t flat) {
    g_what = name;
    begin_case(g_what);
    const size_t len = static_cast<size_t>(efp::length(o));
    const size_t dl = static_cast<size_t>(efp::length(d));
    const Shape c = owned(mul(os, is), mul(oc, ic));
    // n inner lists have n - 1 delimiters between them
    const Shape w = owned(os == DYN ? DYN : add(mul(os, is), mul(os ? os - 1 : 0, ds)), oc == DYN ? DYN : add(mul(oc, ic), mul(oc ? oc - 1 : 0, dc)));
    measure("concat", c, limit(c), flat, [&] { return efp::concat(o); });
    measure("intercalate", w, limit(w), flat + (len ? (len - 1) * dl : 0), [&] { return efp::intercalate(d, o); });
    seen(mix(std::hash<std::string>()(name), mix(flat, dl)));
}
static void nests() {
    typedef efp::Array<int, 3> A3; typedef efp::ArrVec<int, 4> V4; typedef efp::Vector<int> D;
    const A3 a3{1, 2, 3};
    for (size_t t = 0; t < scaled(60); ++t) {
        Rng r(st().seed * 53 + t);
        const auto v4 = [&] { V4 v; for (size_t k = t ? r.below(5) : 4; k > 0; --k) v.push_back(1); return v; };
        const auto dd = [&] { D v; for (size_t k = r.below(9); k > 0; --k) v.push_back(1); return v; };
        const V4 d4 = v4(); const D d = dd();
#define NEST(os, oc, is, ic, ds, dc, O, I, obj, del, fl) nest<O, I, decltype(del)>(#O " " #I " " #del, os, oc, is, ic, ds, dc, obj, del, fl)
        {
            typedef efp::Array<A3, 2> O; const O o{a3, a3};
            NEST(2, 2, 3, 3, 3, 3, O, A3, o, a3, 6); NEST(2, 2, 3, 3, DYN, 4, O, A3, o, d4, 6); NEST(2, 2, 3, 3, DYN, DYN, O, A3, o, d, 6);
        }
        {
            typedef efp::Array<V4, 2> O; O o; size_t n = 0; for (size_t i = 0; i < 2; ++i) { o[i] = v4(); n += o[i].size(); }
            NEST(2, 2, DYN, 4, 3, 3, O, V4, o, a3, n); NEST(2, 2, DYN, 4, DYN, 4, O, V4, o, d4, n); NEST(2, 2, DYN, 4, DYN, DYN, O, V4, o, d, n);
        }
        {
            typedef efp::Array<D, 2> O; O o; size_t n = 0; for (size_t i = 0; i < 2; ++i) { o[i] = dd(); n += o[i].size(); }
            NEST(2, 2, DYN, DYN, 3, 3, O, D, o, a3, n); NEST(2, 2, DYN, DYN, DYN, DYN, O, D, o, d, n);
        }
        {
            typedef efp::ArrVec<A3, 5> O; O o; for (size_t k = t ? r.below(6) : 5; k > 0; --k) o.push_back(a3);
            NEST(DYN, 5, 3, 3, 3, 3, O, A3, o, a3, o.size() * 3); NEST(DYN, 5, 3, 3, DYN, 4, O, A3, o, d4, o.size() * 3);
        }
        {
            typedef efp::ArrVec<V4, 5> O; O o; size_t n = 0; for (size_t k = t ? r.below(6) : 5; k > 0; --k) { const V4 v = v4(); n += v.size(); o.push_back(v); }
            NEST(DYN, 5, DYN, 4, 3, 3, O, V4, o, a3, n); NEST(DYN, 5, DYN, 4, DYN, 4, O, V4, o, d4, n); NEST(DYN, 5, DYN, 4, DYN, DYN, O, V4, o, d, n);
        }
        {
            typedef efp::Vector<A3> O; O o; for (size_t k = r.below(6); k > 0; --k) o.push_back(a3);
            NEST(DYN, DYN, 3, 3, 3, 3, O, A3, o, a3, o.size() * 3); NEST(DYN, DYN, 3, 3, DYN, DYN, O, A3, o, d, o.size() * 3);
        }
        {
            typedef efp::Vector<D> O; O o; size_t n = 0; for (size_t k = r.below(6); k > 0; --k) { const D v = dd(); n += v.size(); o.push_back(v); }
            NEST(DYN, DYN, DYN, DYN, 3, 3, O, D, o, a3, n); NEST(DYN, DYN, DYN, DYN, DYN, DYN, O, D, o, d, n);
        }
        {
            typedef efp::ArrayView<A3, 0> O; const efp::Array<A3, 1> one{a3}; const O o = efp::tail(efp::take(efp::Size<1>{}, one)).size() ? O() : O(one.data(), 0);
            NEST(0, 0, 3, 3, 3, 3, O, A3, o, a3, 0); NEST(0, 0, 3, 3, DYN, 4, O, A3, o, d4, 0);
        }
        const size_t n = r.below(300);
        g_what = sf("from_function %zu", n);
        const auto g = [](size_t i) { return static_cast<int>(i) * 2; };
        measure("from_function", Shape{2, 0}, 1, n, [&] { return efp::from_function(n, g); });
        measure("from_function-static", Shape{0, 17}, 0, 17, [&] { return efp::from_function(efp::Size<17>{}, g); });
        silent("for_index", [&] { efp::for_index([](size_t i) { g_sink = static_cast<int>(i); }, n); });
        silent("cartesian_for_index", [&] { efp::cartesian_for_index([](size_t i, size_t j) { g_sink = static_cast<int>(i + j); }, n % 10, 3); });
        // a vector that is told its size beforehand
        { const size_t a0 = Heap::allocs(); { efp::Vector<int> v; v.reserve(n + 2); for (size_t i = 0; i <= n; ++i) v.push_back(1); } if (Heap::allocs() - a0 > 1) violation("allocations:reserve", g_what); }
        { const size_t a0 = Heap::allocs(); { efp::Vector<int> v; v.resize(n + 1); } if (Heap::allocs() - a0 > 1) violation("allocations:resize", g_what); }
        { efp::Vector<int> v; v.resize(n); const size_t a0 = Heap::allocs(); { const efp::Vector<int> w = v; } if (Heap::allocs() - a0 > 1) violation("allocations:copy", g_what); }
        { efp::Vector<int> v; v.resize(n); const size_t a0 = Heap::allocs(); { const efp::Vector<int> w = std::move(v); } if (Heap::allocs() - a0 > 0) violation("allocations:move", g_what); }
    }
}

// histories of the containers that never allocate
struct Pod { int a; double b; char c; bool operator==(const Pod& o) const { return a == o.a; } };
static void containers() {
    for (size_t t = 0; t < scaled(300); ++t) {
        Rng r(st().seed * 59 + t);
        g_what = sf("history %zu", t);
        begin_case(g_what);
        const size_t steps = 5 + r.below(40);
        silent("ArrVec", [&] {
            efp::ArrVec<int, 12> a, b; efp::ArrVec<Pod, 3> p;
            for (size_t i = 0; i < steps; ++i) switch (r.below(9)) {
                case 0: if (a.size() < 12) a.push_back(1); break;
                case 1: if (a.size()) a.pop_back(); break;
                case 2: if (a.size() < 12) a.insert(r.below(a.size() + 1), 4); break;
                case 3: if (a.size()) a.erase(r.below(a.size())); break;
                case 4: a.resize(r.below(13)); break;
                case 5: b = a; break;
                case 6: a = std::move(b); break;
                case 7: a.clear(); a.reserve(r.below(13)); break;
                default: if (p.size() < 3) p.push_back(Pod{1, 2, 3}); else p.clear(); g_sink = a == b; break;
            }
        });
        silent("Array", [&] { efp::Array<int, 9> a{}, b(a); a = b; b = std::move(a); g_sink = a == b; efp::Array<Pod, 2> p; p[0] = Pod{1, 2, 3}; });
        silent("Vcb", [&] { efp::Vcb<int, 7> a, b; for (size_t i = 0; i < steps; ++i) { a.push_back(1); if (r.chance(20)) b = a; if (r.chance(10)) a = std::move(b); } efp::Vcb<Pod, 3> p; p.push_back(Pod{1, 2, 3}); });
        silent("Vcq", [&] { efp::Vcq<int, 7> a, b; for (size_t i = 0; i < steps; ++i) { if (r.chance(60) || !a.size()) a.push_back(1); else g_sink = a.pop_front(); if (r.chance(20)) b = a; if (r.chance(10)) a = std::move(b); } efp::Vcq<Pod, 3> p; p.push_back(Pod{1, 2, 3}); });
        silent("Enum", [&] {
            typedef efp::Enum<int, double, Pod, efp::ArrVec<int, 5>> E;
            E a(1), b(2.5);
            for (size_t i = 0; i < steps; ++i) switch (r.below(6)) {
                case 0: a = 5; break;
                case 1: a = Pod{1, 2, 3}; break;
                case 2: { efp::ArrVec<int, 5> v; v.push_back(1); a = v; break; }
                case 3: b = a; break;
                case 4: a = std::move(b); break;
                default: g_sink = a.match([](int x) { return x; }, [](double) { return 2; }, [](const Pod& p) { return p.a; }, [](const efp::ArrVec<int, 5>& v) { return static_cast<int>(v.size()); }); break;
            }
        });
        silent("Maybe", [&] {
            efp::Maybe<int> a(4), b;
            for (size_t i = 0; i < steps; ++i) { if (r.chance(30)) b = a; if (r.chance(20)) a = efp::nothing; if (r.chance(30)) a = 3; const auto c = a.fmap([](int x) { return x * 2.0; }); g_sink = static_cast<bool>(c); const auto d = a.bind([](int x) { return efp::Maybe<int>(x); }); g_sink = d.match([](int x) { return x; }, [](efp::Nothing) { return 0; }); }
        });
        silent("Tuple", [&] { auto a = efp::tuple(1, 2.5, 'c'); auto b = a; efp::get<0>(b) = 4; a = b; g_sink = a == b; g_sink = a.match([](int x, double, char) { return x; }); });
        seen(mix(st().seed, t));
    }
}

int main(int argc, char** argv) {
    init(argc, argv);
    heap_install();
    if (!Heap::on()) harness_error("needs the heap monitor");
    typedef List<KArray<int, 4>, KArrVec<int, 6>, KVector<int>, KVectorView<int>, KVcq<int, 5>, KVcb<int, 2>, KStdVector<int>, KBounded<int, 7>, KOpen<int>> Right;
#if SLICE == 0
    unary<KArray<int, 4>>(10); unary<KArray<int, 1>>(5); unary<KArrVec<int, 6>>(20); unary<KArrVec<int, 1>>(8); unary<KVector<int>>(20);
    unary<KFixed<int, 4>>(10); unary<KBounded<int, 6>>(10); unary<KOpen<int>>(10); unary<KArrVec<Odd, 5>>(10); unary<KArray<double, 5>>(10); unary<KVector<double>>(10);
#elif SLICE == 3
    unary<KArrayView<int, 4>>(10); unary<KArrVecView<int, 6>>(20); unary<KVectorView<int>>(20); unary<KConstView<int>>(10);
    unary<KVcb<int, 4>>(10); unary<KVcq<int, 6>>(20); unary<KStdArray<int, 3>>(10); unary<KStdVector<int>>(20);
#elif SLICE == 1
    with_all<KArray<int, 4>>(6, Right()); with_all<KArrVec<int, 6>>(6, Right()); with_all<KVector<int>>(6, Right()); with_all<KVcb<int, 3>>(6, Right());
    with_all<KVcq<int, 4>>(6, Right()); with_all<KArrVecView<int, 5>>(6, Right()); with_all<KFixed<int, 2>>(6, Right()); with_all<KStdArray<int, 3>>(6, Right());
#else
    ternary<KArray<int, 3>, KArrVec<int, 4>, KVector<int>>(20); ternary<KArray<int, 3>, KArray<int, 4>, KArray<int, 2>>(10);
    ternary<KArrVec<int, 3>, KArrVec<int, 5>, KArray<int, 2>>(20); ternary<KVcq<int, 4>, KVcb<int, 3>, KBounded<int, 5>>(20); ternary<KVector<int>, KOpen<int>, KStdVector<int>>(20);
    nests();
    containers();
#endif
    sample(g_what);
    return finish();
}
