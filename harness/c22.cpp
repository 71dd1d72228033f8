// C22: every sequence type presents one coherent Sequence interface.
#include <limits>
#include <memory>
#include "seqs.hpp"

using namespace mon;

#ifndef SLICE
#define SLICE 0
#endif

static std::string g_what, g_ops;
static void bad(const char* what, const std::string& d = "") { violation(std::string("incoherent:") + what, g_what + " after " + g_ops + ": " + d); }

// what a write in place does to later states of the cyclic buffers is decided by C03
template<typename S> struct IsCyclic { enum { value = 0 }; };
template<typename A, size_t n> struct IsCyclic<efp::Vcb<A, n>> { enum { value = 1 }; };
template<typename A, size_t n> struct IsCyclic<efp::Vcq<A, n>> { enum { value = 1 }; };

template<typename S> struct IsUser { enum { value = 0 }; };
template<typename A, size_t n> struct IsUser<user::Fixed<A, n>> { enum { value = 1 }; };
template<typename A, size_t n> struct IsUser<user::Bounded<A, n>> { enum { value = 1 }; };
template<typename A> struct IsUser<user::Open<A>> { enum { value = 1 }; };

// members, where the type has them
template<typename S, typename A>
static void members(S& s, const S& c, const A* d, size_t n, std::false_type) {
    if (c.size() != n) bad("size", sf("size() %zu, length %zu", static_cast<size_t>(c.size()), n));
    if (c.empty() != (n == 0)) bad("empty", sf("empty() %d, length %zu", c.empty(), n));
    if (c.data() != d || s.data() != d) bad("data-member");
    if (static_cast<size_t>(c.end() - c.begin()) != n || static_cast<size_t>(s.end() - s.begin()) != n) bad("range", sf("begin/end span %td, length %zu", c.end() - c.begin(), n));
    size_t i = 0;
    for (const A& a : c) { if (&a != d + i) { bad("iteration", sf("element %zu", i)); break; } ++i; }
    if (i != n) bad("iteration", sf("%zu elements iterated, length %zu", i, n));
    i = 0;
    for (auto it = s.begin(); it != s.end(); ++it, ++i) if (&*it != d + i) { bad("iteration", sf("element %zu", i)); break; }
    for (i = 0; i < n; ++i) if (&c[i] != d + i || &s[i] != d + i) { bad("index", sf("element %zu", i)); break; }
}
template<typename S, typename A>
static void members(S&, const S&, const A*, size_t, std::true_type) {}

template<typename K>
static void coherent(K& k, const Model& m) {
    typedef typename K::Seq S;
    typedef typename K::Elem A;
    using efp::data; using efp::length; using efp::nth;
    S& s = k.seq();
    const S& c = k.cseq();
    count("states checked");
    static_assert(std::is_same<typename std::remove_cv<efp::Element<S>>::type, A>::value, "Element");
    if (static_cast<size_t>(efp::CtSize<S>::value) != static_cast<size_t>(K::ct_size)) bad("CtSize", sf("%zu", static_cast<size_t>(efp::CtSize<S>::value)));
    if (static_cast<size_t>(efp::CtCapacity<S>::value) != static_cast<size_t>(K::ct_cap)) bad("CtCapacity", sf("%zu", static_cast<size_t>(efp::CtCapacity<S>::value)));
    if (static_cast<size_t>(efp::CtSize<const S&>::value) != static_cast<size_t>(K::ct_size)) bad("CtSize-of-reference");
    const size_t n = static_cast<size_t>(length(c));
    if (n != m.size()) { bad("length", sf("length %zu, expected %zu", n, m.size())); return; }
    if (static_cast<size_t>(length(s)) != n) bad("length-mutable");
    if (efp::IsStaticSize<S>::value && efp::CtSize<S>::value != n) bad("static-size", sf("length %zu", n));
    if (efp::IsStaticCapacity<S>::value && efp::CtCapacity<S>::value < n) bad("static-capacity", sf("length %zu", n));
    if (efp::is_null(c) != (n == 0)) bad("is_null");
    const A* const d = data(c);
    if (data(s) != d) bad("data-mutable");
    for (size_t i = 0; i < n; ++i) {
        if (&nth(i, c) != d + i || &nth(i, s) != d + i) { bad("nth", sf("element %zu of %zu", i, n)); return; }
        if (Val<A>::get(nth(i, c)) != m[i]) { bad("value", sf("element %zu is %d, expected %d", i, Val<A>::get(nth(i, c)), m[i])); return; }
    }
    members(s, c, d, n, std::integral_constant<bool, IsUser<S>::value>());
}

// mutable access writes what const access reads
template<typename K>
static void writes(K& k, Model& m, Rng& r, std::true_type) {
    typedef typename K::Elem A;
    using efp::data; using efp::nth;
    for (size_t t = 0; t < 3 && m.size(); ++t) {
        const size_t i = r.below(m.size());
        const int v = r.range(1, 99);
        m[i] = v;
        if (r.chance(50)) { nth(i, k.seq()) = Val<A>::make(v); g_ops += sf(" nth[%zu]=%d", i, v); }
        else { data(k.seq())[i] = Val<A>::make(v); g_ops += sf(" data[%zu]=%d", i, v); }
        coherent(k, m);
    }
}
template<typename K> static void writes(K&, Model&, Rng&, std::false_type) {}

// one random operation, by family
template<typename A, size_t n> static void step(efp::Array<A, n>& s, Model& m, Rng& r) { const size_t i = r.below(n); s[i] = Val<A>::make(7); m[i] = 7; g_ops += " set"; }
template<typename A, size_t n> static void step(std::array<A, n>& s, Model& m, Rng& r) { const size_t i = r.below(n); s[i] = Val<A>::make(7); m[i] = 7; g_ops += " set"; }
template<typename A, size_t n> static void step(efp::Vcb<A, n>& s, Model& m, Rng& r) { const int v = r.range(1, 99); s.push_back(Val<A>::make(v)); m.erase(m.begin()); m.push_back(v); g_ops += " push"; }
template<typename A, size_t n> static void step(efp::Vcq<A, n>& s, Model& m, Rng& r) {
    if (r.chance(60) || m.empty()) { const int v = r.range(1, 99); s.push_back(Val<A>::make(v)); m.push_back(v); if (m.size() > n) m.erase(m.begin()); g_ops += " push"; }
    else { s.pop_front(); m.erase(m.begin()); g_ops += " pop"; }
}
template<typename A, typename S> static void list_step(S& s, Model& m, Rng& r, size_t cap) {
    const int v = r.range(1, 99);
    switch (r.below(8)) {
        case 0: case 1: if (m.size() < cap) { s.push_back(Val<A>::make(v)); m.push_back(v); g_ops += " push"; } break;
        case 2: if (m.size()) { s.pop_back(); m.pop_back(); g_ops += " pop"; } break;
        case 3: { const size_t n = r.below(cap < 12 ? cap + 1 : 12); s.resize(n); m.resize(n, Val<A>::fresh()); g_ops += sf(" resize%zu", n); break; }
        case 4: if (m.size()) { const size_t i = r.below(m.size()); s.erase(i); m.erase(m.begin() + static_cast<long>(i)); g_ops += " erase"; } break;
        case 5: s.clear(); m.clear(); g_ops += " clear"; break;
        case 6: { S t(s); s = t; g_ops += " copy"; break; }
        default: { S t(std::move(s)); s = std::move(t); g_ops += " move"; break; }
    }
}
template<typename A, size_t n> static void step(efp::ArrVec<A, n>& s, Model& m, Rng& r) { list_step<A>(s, m, r, n); }
template<typename A> static void step(efp::Vector<A>& s, Model& m, Rng& r) {
    if (r.chance(15)) { s.shrink_to_fit(); g_ops += " shrink"; } else if (r.chance(15)) { s.reserve(r.below(30)); g_ops += " reserve"; } else list_step<A>(s, m, r, 1000);
}
template<typename A> static void step(std::vector<A>& s, Model& m, Rng& r) { const int v = r.range(1, 99); if (r.chance(60) || m.empty()) { s.push_back(Val<A>::make(v)); m.push_back(v); } else { s.pop_back(); m.pop_back(); } g_ops += " std"; }
static void step(std::string& s, Model& m, Rng& r) { const int v = r.range(1, 99); if (r.chance(60) || m.empty()) { s.push_back(Val<char>::make(v)); m.push_back(v); } else { s.pop_back(); m.pop_back(); } g_ops += " std"; }
static void step(efp::String& s, Model& m, Rng& r) {
    const int v = r.range(1, 99);
    switch (r.below(4)) {
        case 0: s.push_back(Val<char>::make(v)); m.push_back(v); g_ops += " push"; break;
        case 1: if (m.size()) { s.pop_back(); m.pop_back(); g_ops += " pop"; } break;
        case 2: (void)s.c_str(); g_ops += " c_str"; break;
        default: { const char cs[] = {Val<char>::make(v), Val<char>::make(v), 0}; s.append(cs); m.push_back(v); m.push_back(v); g_ops += " append"; break; }
    }
}
template<typename A, size_t n> static void step(efp::ArrayView<A, n>& s, Model&, Rng&) { efp::ArrayView<A, n> t(s); s = t; g_ops += " copy"; }
template<typename A, size_t n> static void step(efp::ArrVecView<A, n>& s, Model&, Rng&) { efp::ArrVecView<A, n> t(s); s = t; g_ops += " copy"; }
template<typename A> static void step(efp::VectorView<A>& s, Model&, Rng&) { efp::VectorView<A> t(s); s = t; g_ops += " copy"; }
template<typename A, size_t n> static void step(user::Fixed<A, n>&, Model&, Rng&) {}
template<typename A, size_t n> static void step(user::Bounded<A, n>& s, Model& m, Rng&) { if (s.n) { --s.n; m.pop_back(); } }
template<typename A> static void step(user::Open<A>& s, Model& m, Rng&) { if (s.n) { --s.n; m.pop_back(); } }

template<typename K>
static void kind(size_t n) {
    if (!wanted(K::name())) return;
    for (size_t t = 0; t < scaled(n); ++t) {
        Rng r(mix(st().seed * 61 + t, std::hash<std::string>()(K::name())));
        Model m = list_for<K>(r, r.chance(3) ? 400 : 12);
        g_what = K::name() + show(m);
        g_ops = "construction";
        begin_case(g_what);
        {
            K k(m, r);
            coherent(k, m);
            bool written = false;
            for (size_t i = r.below(14); i > 0; --i) {
                step(k.seq(), m, r);
                if (IsCyclic<typename K::Seq>::value && written) { const Model now = shown(k.cseq()); if (now.size() == m.size()) m = now; }
                coherent(k, m);
                if (r.chance(40)) written = true, writes(k, m, r, std::integral_constant<bool, K::mut>());
            }
        }
        expect_no_live(g_what.c_str());
        seen(mix(std::hash<std::string>()(g_what), std::hash<std::string>()(g_ops)));
    }
    count("histories of " + K::name(), scaled(n));
}

// ---------------------------------------------------------------- a trait-only type against a built-in one
static std::vector<int> g_log;
struct Out {
    std::string s;
    template<typename R> void list(const char* op, const R& r) {
        s += sf("%s{%zd/%zd:", op, static_cast<ssize_t>(efp::CtSize<R>::value), static_cast<ssize_t>(efp::CtCapacity<R>::value));
        using efp::length; using efp::nth;
        for (size_t i = 0; i < static_cast<size_t>(length(r)); ++i) s += sf(" %.17g", static_cast<double>(nth(i, r)));
        s += "}";
        calls();
    }
    template<typename V> void val(const char* op, const V& v) { s += sf("%s=%.17g;", op, static_cast<double>(v)); calls(); }
    void calls() { s += sf("(%zu", g_log.size()); for (int x : g_log) s += sf(" %d", x); s += ")\n"; g_log.clear(); }
};
template<typename S, typename B> static void mutate(S& s, B&, Out& o) {
    efp::for_each_mut([](int& a) { g_log.push_back(a); a += 3; }, s); o.calls();
    efp::for_each_with_index_mut([](size_t i, int& a) { g_log.push_back(a); a = a % 50 + static_cast<int>(i); }, s); o.calls();
    efp::cartesian_for_each_mut([](int& a) { g_log.push_back(a); ++a; }, s); o.calls();
}
template<typename S> struct ElemIs { typedef typename std::remove_cv<efp::Element<S>>::type type; };

template<typename S>
static std::string everything(S& ms, int p) {
    Out o;
    const S& s = ms;
    const auto lg = [](int x) { g_log.push_back(x); return x; };
    o.list("map", efp::map([&](int a) { return lg(a) * 2; }, s));
    o.list("map2", efp::map([&](int a, int b) { return lg(a) * 100 + b; }, s, s));
    o.list("map_with_index", efp::map_with_index([&](size_t i, int a) { return lg(a) + static_cast<int>(i); }, s));
    o.list("cartesian_map", efp::cartesian_map([&](int a, int b) { return lg(a) * 100 + b; }, s, s));
    o.list("filter", efp::filter([&](int a) { return lg(a) % 3 != p % 3; }, s));
    o.val("foldl", efp::foldl([&](long x, int a) { return (x * 31 + lg(a)) % 10007; }, 1L, s));
    o.val("foldr", efp::foldr([&](int a, long x) { return (x * 31 + lg(a)) % 10007; }, 1L, s));
    efp::for_each([&](int a) { lg(a); }, s); o.calls();
    efp::for_each([&](int a, int b) { lg(a); lg(b); }, s, s); o.calls();
    efp::for_each_with_index([&](size_t i, int a) { lg(static_cast<int>(i)); lg(a); }, s); o.calls();
    efp::cartesian_for_each([&](int a, int b) { lg(a); lg(b); }, s, s); o.calls();
    o.list("append", efp::append(s, s));
    const efp::Vector<int> vec = {1, 2}; const efp::Array<int, 2> arr = {3, 4};
    o.list("append-mixed", efp::append(s, vec)); o.list("append-mixed", efp::append(arr, s));
    o.val("elem", efp::elem(p, s));
    o.val("elem_index", efp::elem_index(p, s) ? static_cast<double>(efp::elem_index(p, s).value()) : -1);
    o.list("elem_indices", efp::elem_indices(p, s));
    o.val("find", efp::find([&](int a) { return lg(a) == p; }, s));
    o.val("find_index", static_cast<bool>(efp::find_index([&](int a) { return lg(a) == p; }, s)));
    o.list("find_indices", efp::find_indices([&](int a) { return lg(a) >= p; }, s));
    o.list("take", efp::take(3, s)); o.list("drop", efp::drop(2, s)); o.list("slice", efp::slice(1, 3, s));
    o.list("take-s", efp::take(efp::Size<3>{}, s)); o.list("drop-s", efp::drop(efp::Size<2>{}, s)); o.list("slice-s", efp::slice(efp::Size<1>{}, efp::Size<3>{}, s));
    o.list("take_while", efp::take_while([&](int a) { return lg(a) < p; }, s)); o.list("drop_while", efp::drop_while([&](int a) { return lg(a) < p; }, s));
    o.list("take-m", efp::take(3, ms)); o.list("drop-m", efp::drop(2, ms)); o.list("slice-m", efp::slice(1, 3, ms));
    using efp::length;
    const size_t len = static_cast<size_t>(length(s));
    if (len) { o.list("tail", efp::tail(s)); o.list("init", efp::init(s)); o.val("head", efp::head(s)); o.val("last", efp::last(s)); o.list("tail-m", efp::tail(ms)); o.list("init-m", efp::init(ms)); }
    else { o.val("tail", throws<efp::RuntimeError>([&] { efp::tail(s); })); o.val("head", throws<efp::RuntimeError>([&] { efp::head(s); })); }
    o.val("is_null", efp::is_null(s));
    o.val("sum", efp::sum(s)); o.val("max", efp::max_elem(s)); o.val("min", efp::min_elem(s));
#ifndef MON_FREESTANDING
    if (len > 2) {
        o.val("product", efp::product(efp::take(3, s)));
        o.val("max_min", efp::max_min(s)); o.val("mean", efp::mean<double>(s)); o.val("rms", efp::rms<double>(s));
        o.val("variance", efp::variance<double>(s)); o.val("sd", efp::standard_deviation<double, true>(s)); o.val("cov", efp::covariance<double>(s, s)); o.val("sse", efp::sse<double>(s, vec));
        o.val("autocov", efp::autocovariance<double>(s, 1)); o.list("remove_dc", efp::remove_dc<double>(s)); o.list("detrend", efp::detrend<double>(s));
        o.val("slope", efp::get<0>(efp::linear_regression_with_index<double>(s)));
        o.val("rmse", efp::rmse<double>(s, s)); o.val("nrmse", efp::nrmse_mean<double>(s, s)); o.val("mse", efp::mse<double>(s, s));
    }
#endif
    mutate(ms, ms, o);
    o.list("after", efp::map([](int a) { return a; }, s));
    return o.s;
}
template<typename KU, typename KB>
static void same(size_t n) {
    for (size_t t = 0; t < scaled(n); ++t) {
        Rng r(mix(st().seed * 67 + t, std::hash<std::string>()(KU::name())));
        const Model m = list_for<KU>(r, 10);
        g_what = KU::name() + " and " + KB::name() + show(m);
        g_ops = "comparison";
        begin_case(g_what);
        KU u(m, r);
        KB b(m, r);
        const int p = m.empty() ? 3 : m[r.below(m.size())];
        const std::string x = everything(u.seq(), p), y = everything(b.seq(), p);
        count("functions compared", 55);
        if (x != y) {
            size_t i = 0; while (i < x.size() && i < y.size() && x[i] == y[i]) ++i;
            i = x.rfind('\n', i ? i - 1 : 0); i = i == std::string::npos ? 0 : i + 1;
            bad("trait-only-type", x.substr(i, 80) + " <> " + y.substr(i, 80));
        }
        seen(std::hash<std::string>()(g_what));
    }
}

// views are equal exactly when they show the same objects, and never longer than they say they can be
template<typename V>
static void same_range(const char* name, const V& a, const V& b) {
    const bool same = efp::data(a) == efp::data(b) && static_cast<size_t>(efp::length(a)) == static_cast<size_t>(efp::length(b));
    count("views compared");
    g_ops = sf("%s of [%p, %zu) and [%p, %zu)", name, static_cast<const void*>(efp::data(a)), static_cast<size_t>(efp::length(a)), static_cast<const void*>(efp::data(b)), static_cast<size_t>(efp::length(b)));
    if ((a == b) != same || (b == a) != same || !(a == V(a))) bad("view-equality");
    V c;
    c = a;
    if (!(c == a) || efp::data(c) != efp::data(a)) bad("view-assignment");
}
template<typename A>
static void view_construction(size_t cases) {
    for (size_t t = 0; t < scaled(cases); ++t) {
        Rng r(st().seed * 71 + t);
        const size_t n = 3 + r.below(6);
        g_what = sf("views of %zu elements", n);
        begin_case(g_what);
        std::unique_ptr<A[]> src(new A[n]);
        for (size_t i = 0; i < n; ++i) src[i] = Val<A>::make(r.range(1, 5));
        const size_t o1 = r.below(n - 2), o2 = r.chance(50) ? o1 : r.below(n - 2), l1 = r.below(n - o1 + 1), l2 = r.chance(50) && l1 <= n - o2 ? l1 : r.below(n - o2 + 1);
        const A* p = src.get();
        const efp::VectorView<A> v1(p + o1, l1), v2(p + o2, l2);
        const efp::ArrVecView<A, 8> b1(p + o1, l1), b2(p + o2, l2);
        const efp::ArrayView<A, 3> a1(p + o1), a2(p + o2);
        same_range("VectorView", v1, v2);
        same_range("ArrVecView", b1, b2);
        same_range("ArrayView", a1, a2);
        same_range("VectorView", efp::VectorView<A>(b1), v2);
        same_range("VectorView", efp::VectorView<A>(a1), v2);
        same_range("ArrVecView", efp::ArrVecView<A, 8>(a1), b2);
        if (v1.size() != l1 || b1.size() != l1 || a1.size() != 3 || v1.data() != p + o1 || b1.data() != p + o1 || a1.data() != p + o1) bad("view-construction");
        if (v1.empty() != (l1 == 0) || b1.empty() != (l1 == 0)) bad("view-empty");
        const size_t k = 1 + r.below(20);
        const A* none = nullptr;
        g_ops = sf("null and %zu", k);
        if (!throws<efp::RuntimeError>([&] { const efp::VectorView<A> v(none, k); }) || !throws<efp::RuntimeError>([&] { const efp::ArrVecView<A, 40> v(none, k); })
            || !throws<efp::RuntimeError>([&] { const efp::ArrayView<A, 2> v(none); })) bad("view-of-null-accepted");
        if (throws<efp::RuntimeError>([&] { const efp::VectorView<A> v(none, 0); if (!v.empty()) bad("view-empty"); }) || throws<efp::RuntimeError>([&] { const efp::ArrVecView<A, 4> v(none, 0); if (!v.empty()) bad("view-empty"); })) bad("empty-view-refused");
        g_ops = "length beyond the static capacity";
        const bool beyond = l1 > 2;
        if (throws<efp::RuntimeError>([&] { const efp::ArrVecView<A, 2> v(p + o1, l1); }) != beyond) bad("view-capacity", sf("%zu elements, capacity 2", l1));
        seen(mix(mix(o1 * 64 + o2, l1 * 64 + l2), n));
    }
}

int main(int argc, char** argv) {
    init(argc, argv);
#if SLICE == 0
    view_construction<int>(200); view_construction<std::string>(100); view_construction<double>(100);
    kind<KArray<int, 4>>(60); kind<KArray<int, 1>>(20); kind<KArrVec<int, 6>>(150); kind<KArrVec<int, 1>>(40); kind<KVector<int>>(150);
    kind<KArrayView<int, 4>>(20); kind<KArrVecView<int, 6>>(30); kind<KVectorView<int>>(30); kind<KConstView<int>>(20);
    kind<KBoundedOfFixed<int, 3, 6>>(20); kind<KBoundedOfFixed<Tracked, 4, 4>>(20); kind<KOpenOfFixed<int, 5>>(20); kind<KOpenOfFixed<Tracked, 1>>(20); kind<KOpenOfBounded<int, 7>>(40); kind<KOpenOfBounded<Tracked, 3>>(30); kind<KOpenOfBounded<char, 9>>(30);
    kind<KVcb<int, 4>>(120); kind<KVcb<int, 1>>(40); kind<KVcq<int, 6>>(150); kind<KVcq<int, 1>>(40);
    kind<KStdArray<int, 4>>(20); kind<KStdVector<int>>(60); kind<KFixed<int, 4>>(20); kind<KBounded<int, 6>>(60); kind<KOpen<int>>(60);
    kind<KArray<Tracked, 4>>(60); kind<KArrVec<Tracked, 6>>(120); kind<KVector<Tracked>>(120); kind<KVcb<Tracked, 4>>(80); kind<KVcq<Tracked, 6>>(120);
    kind<KString>(120); kind<KStringView>(30); kind<KStdString>(60); kind<KVector<std::string>>(80); kind<KVector<double>>(40); kind<KArrVec<Odd, 7>>(60);
#elif SLICE == 1
    same<KFixed<int, 4>, KArray<int, 4>>(30); same<KBounded<int, 6>, KArrVec<int, 6>>(60); same<KOpen<int>, KVector<int>>(60);
#else
    same<KStdArray<int, 5>, KArray<int, 5>>(30); same<KStdVector<int>, KVector<int>>(60); same<KVcq<int, 6>, KArrVec<int, 6>>(60); same<KVcb<int, 4>, KArray<int, 4>>(40);
#endif
    sample(g_what + " after " + g_ops);
    return finish();
}
