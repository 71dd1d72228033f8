// C08: views alias their source, stay inside it and partition it.
#include "seqs.hpp"

using namespace mon;

#ifndef SLICE
#define SLICE 0
#endif

static std::string g_what;

static void bad(const char* op, const char* aspect, const std::string& detail) {
    violation(std::string(aspect) + ":" + op, g_what + " " + op + " " + detail);
}

// The view must show positions [off, off + len) of the source, which lies at base and holds m.
template<typename V, typename A>
static void check_view(const V& v, const A* base, const Model& m, size_t off, size_t len, const char* op) {
    typedef typename std::remove_cv<efp::Element<V>>::type E;
    static_assert(std::is_same<E, A>::value, "element type");
    using efp::length;
    using efp::nth;
    count("views checked");
    const size_t n = static_cast<size_t>(length(v));
    if (n != len) { bad(op, "length", sf("has length %zu, expected %zu", n, len)); return; }
    if (v.size() != len) bad(op, "size", sf("size() is %zu, expected %zu", v.size(), len));
    if (efp::IsStaticSize<V>::value && efp::CtSize<V>::value != len) bad(op, "ct-size", sf("compile-time size %zu, expected %zu", static_cast<size_t>(efp::CtSize<V>::value), len));
    if (efp::IsStaticCapacity<V>::value && efp::CtCapacity<V>::value < len) bad(op, "ct-capacity", sf("compile-time capacity %zu, length %zu", static_cast<size_t>(efp::CtCapacity<V>::value), len));
    const A* d = efp::data(v);
    if (len == 0) {
        if (d != nullptr && base != nullptr && (d < base || d > base + m.size())) bad(op, "outside", "an empty view points outside of its source");
    } else if (d != base + off) {
        bad(op, "alias", sf("starts at element %td of the source, expected %zu", d - base, off));
        return;
    }
    if (v.begin() != d || static_cast<size_t>(v.end() - v.begin()) != len) bad(op, "range", sf("begin/end span %td elements, expected %zu", v.end() - v.begin(), len));
    for (size_t i = 0; i < len; ++i) {
        if (&nth(i, v) != base + off + i || &v[i] != base + off + i) { bad(op, "alias", sf("element %zu is not the source's element %zu", i, off + i)); return; }
        if (Val<A>::get(nth(i, v)) != m[off + i]) { bad(op, "value", sf("element %zu differs", i)); return; }
    }
}

template<typename S> using ElemOf = typename std::remove_cv<efp::Element<S>>::type;

static size_t lo(size_t a, size_t b) { return a < b ? a : b; }

// all counts, as the given type
template<typename N, typename S, typename A>
static void counts(S& s, const A* base, const Model& m, size_t top, const char* nt) {
    const size_t len = m.size();
    for (size_t c = 0; c <= top; ++c) {
        const N n = static_cast<N>(c);
        const size_t k = lo(c, len);
        check_view(efp::take(n, s), base, m, 0, k, "take");
        check_view(efp::drop(n, s), base, m, k, len - k, "drop");
        const auto t = efp::take(n, s);
        const auto d = efp::drop(n, s);
        if (efp::length(t) + efp::length(d) != len) bad("take+drop", "partition", sf("count %zu (%s)", c, nt));
        if (efp::length(t) != 0 && efp::length(d) != 0 && efp::data(t) + efp::length(t) != efp::data(d)) bad("take+drop", "partition", sf("count %zu (%s) not adjacent", c, nt));
    }
}
template<typename N, typename M, typename S, typename A>
static void slices(S& s, const A* base, const Model& m, size_t top) {
    const size_t len = m.size();
    for (size_t b = 0; b <= top; ++b)
        for (size_t e = 0; e <= top; ++e) {
            const size_t ee = lo(e, len), bb = lo(b, ee);
            check_view(efp::slice(static_cast<N>(b), static_cast<M>(e), s), base, m, bb, ee - bb, "slice");
        }
}
template<size_t n, typename S, typename A>
static void fixed1(S& s, const A* base, const Model& m) {
    const size_t k = lo(n, m.size());
    const efp::Size<n> c{};
    check_view(efp::take(c, s), base, m, 0, k, "take-static");
    check_view(efp::drop(c, s), base, m, k, m.size() - k, "drop-static");
}
// the forms without checks, within the bounds they ask for
template<typename S, typename A>
static void unchecked(S& s, const A* base, const Model& m, size_t top) {
    const size_t len = m.size();
    for (size_t a = 0; a <= len && a <= top; ++a) {
        check_view(efp::take_unsafe(a, s), base, m, 0, a, "take_unsafe");
        check_view(efp::drop_unsafe(a, s), base, m, a, len - a, "drop_unsafe");
        check_view(efp::take_unsafe(static_cast<int>(a), s), base, m, 0, a, "take_unsafe");
        for (size_t b = a; b <= len && b <= top; ++b) check_view(efp::slice_unsafe(a, b, s), base, m, a, b - a, "slice_unsafe");
    }
}
template<size_t n, typename S, typename A>
static void unchecked1(S& s, const A* base, const Model& m) {
    if (n > m.size()) return;
    const efp::Size<n> c{};
    check_view(efp::take_unsafe(c, s), base, m, 0, n, "take_unsafe-static");
    check_view(efp::drop_unsafe(c, s), base, m, n, m.size() - n, "drop_unsafe-static");
}
template<size_t b, size_t e, typename S, typename A>
static void fixed2(S& s, const A* base, const Model& m) {
    const size_t ee = lo(e, m.size()), bb = lo(b, ee);
    const efp::Size<b> cb{};
    const efp::Size<e> ce{};
    check_view(efp::slice(cb, ce, s), base, m, bb, ee - bb, "slice-static");
    check_view(efp::slice(static_cast<size_t>(b), ce, s), base, m, bb, ee - bb, "slice-dynamic-static");
    check_view(efp::slice(cb, static_cast<size_t>(e), s), base, m, bb, ee - bb, "slice-static-dynamic");
}
template<size_t b, typename S, typename A>
static void fixed2s(S& s, const A* base, const Model& m) {
    fixed2<b, 0>(s, base, m); fixed2<b, 1>(s, base, m); fixed2<b, 3>(s, base, m); fixed2<b, 5>(s, base, m); fixed2<b, 20>(s, base, m);
}
template<typename S, typename A>
static void fixed(S& s, const A* base, const Model& m) {
    fixed1<0>(s, base, m); fixed1<1>(s, base, m); fixed1<2>(s, base, m); fixed1<3>(s, base, m);
    fixed1<4>(s, base, m); fixed1<5>(s, base, m); fixed1<7>(s, base, m); fixed1<30>(s, base, m);
    fixed2s<0>(s, base, m); fixed2s<1>(s, base, m); fixed2s<2>(s, base, m); fixed2s<4>(s, base, m); fixed2s<9>(s, base, m);
}

// partial functions
template<typename S, typename A>
static void partial(S& s, const A* base, const Model& m, std::true_type) {
    const size_t len = m.size();
    if (len) {
        check_view(efp::tail(s), base, m, 1, len - 1, "tail");
        check_view(efp::init(s), base, m, 0, len - 1, "init");
    } else {
        if (!throws<efp::RuntimeError>([&] { (void)efp::tail(s); })) bad("tail", "no-throw", "of an empty sequence");
        if (!throws<efp::RuntimeError>([&] { (void)efp::init(s); })) bad("init", "no-throw", "of an empty sequence");
        count("partial functions of empty sequences", 2);
    }
}
template<typename S, typename A>
static void partial(S&, const A*, const Model&, std::false_type) {}

template<typename S, typename A>
static void ends(const S& s, const A* base, const Model& m) {
    if (m.size()) {
        if (&efp::head(s) != base) bad("head", "alias", "");
        if (&efp::last(s) != base + (m.size() - 1)) bad("last", "alias", "");
    } else {
        if (!throws<efp::RuntimeError>([&] { (void)efp::head(s); })) bad("head", "no-throw", "of an empty sequence");
        if (!throws<efp::RuntimeError>([&] { (void)efp::last(s); })) bad("last", "no-throw", "of an empty sequence");
        count("partial functions of empty sequences", 2);
    }
    if (efp::is_null(s) != m.empty()) bad("is_null", "value", "");
}

template<typename A> static bool below_ten(const A& a) { return Val<A>::get(a) < 10; }

template<typename S, typename A>
static void whiles(const S& s, const A* base, const Model& m, Rng& r) {
    const size_t len = m.size();
    for (int t = 0; t < 5; ++t) {
        const int cut = t == 0 ? 0 : t == 1 ? 1000 : len ? m[r.below(len)] : 3;
        size_t k = 0;
        while (k < len && m[k] != cut && (t == 1 || m[k] > 0) && t != 0) ++k;
        bool inside = true;
        const auto p = [&](const A& a) { if (&a < base || &a >= base + len) inside = false; return t != 0 && Val<A>::get(a) != cut; };
        check_view(efp::take_while(p, s), base, m, 0, k, "take_while");
        check_view(efp::drop_while(p, s), base, m, k, len - k, "drop_while");
        if (!inside) bad("take_while", "outside", "predicate applied to something that is not in the source");
    }
    size_t k = 0;
    while (k < len && m[k] < 10) ++k;
    check_view(efp::take_while(below_ten<A>, s), base, m, 0, k, "take_while");
    check_view(efp::drop_while(below_ten<A>, s), base, m, k, len - k, "drop_while");
}

// views of views
template<typename S, typename A>
static void nested(S& s, const A* base, const Model& m, Rng& r) {
    const size_t len = m.size();
    const size_t a = r.below(len + 2), b = r.below(len + 2);
    const auto d = efp::drop(a, s);
    const size_t o = lo(a, len), rest = len - o, k = lo(b, rest);
    check_view(efp::take(b, d), base, m, o, k, "take of drop");
    check_view(efp::drop(b, d), base, m, o + k, rest - k, "drop of drop");
    const auto t = efp::take(a, s);
    check_view(efp::drop(b, t), base, m, lo(b, o), o - lo(b, o), "drop of take");
    check_view(efp::take(b, t), base, m, 0, lo(b, o), "take of take");
    check_view(efp::slice(a, b, s), base, m, lo(a, lo(b, len)), lo(b, len) - lo(a, lo(b, len)), "slice");
    check_view(efp::drop(a, efp::take(b, s)), base, m, lo(a, lo(b, len)), lo(b, len) - lo(a, lo(b, len)), "drop of take");
    const auto st_ = efp::take(efp::Size<3>{}, s);
    const size_t l3 = lo(3, len);
    check_view(efp::drop(efp::Size<1>{}, st_), base, m, lo(1, l3), l3 - lo(1, l3), "static drop of static take");
    check_view(efp::drop(efp::Size<5>{}, st_), base, m, l3, 0, "static drop of static take");
    auto mt = efp::take(a, s);   // not const
    check_view(efp::take(b, mt), base, m, 0, lo(b, o), "take of take");
    check_view(efp::take_while([](const A&) { return true; }, d), base, m, o, rest, "take_while of drop");
    if (rest) { check_view(efp::tail(d), base, m, o + 1, rest - 1, "tail of drop"); check_view(efp::init(d), base, m, o, rest - 1, "init of drop"); }
    ends(d, base + o, Model(m.begin() + static_cast<long>(o), m.end()));
    ends(t, base, Model(m.begin(), m.begin() + static_cast<long>(o)));
}

template<typename K>
static void views(size_t n) {
    typedef typename K::Elem A;
    typedef typename K::Seq S;
    if (!wanted(K::name())) return;
    for (size_t t = 0; t < scaled(n); ++t) {
        Rng r(mix(st().seed * 17 + t, std::hash<std::string>()(K::name())));
        const Model m = t == 0 && K::fits(0) ? Model() : list_for<K>(r, r.chance(3) ? 300 : 10);
        g_what = K::name() + show(m);
        begin_case(g_what);
        HeapScope heap;
        uint64_t h = std::hash<std::string>()(K::name());
        {
            K k(m, r);
            S& s = k.seq();
            const S& c = k.cseq();
            using efp::data;
            const A* const base = data(c);
            const size_t top = m.size() > 20 ? 6 : m.size() + 3;
            counts<size_t>(s, base, m, top, "size_t"); counts<size_t>(c, base, m, top, "const size_t");
            counts<int>(c, base, m, top, "int"); counts<int>(s, base, m, top, "int"); counts<unsigned short>(c, base, m, top, "ushort");
            for (size_t big : {static_cast<size_t>(1) << 20, static_cast<size_t>(-1), static_cast<size_t>(1) << 63, static_cast<size_t>(1) << 32, m.size() * 2 + 1}) {
                check_view(efp::take(big, s), base, m, 0, lo(big, m.size()), "take-huge");
                check_view(efp::drop(big, c), base, m, lo(big, m.size()), m.size() - lo(big, m.size()), "drop-huge");
                check_view(efp::slice(lo(1, m.size()), big, s), base, m, lo(1, m.size()), lo(big, m.size()) - lo(1, m.size()), "slice-huge");
                check_view(efp::slice(big, big, c), base, m, lo(big, m.size()), 0, "slice-huge");
                check_view(efp::slice(big, static_cast<size_t>(0), c), base, m, 0, 0, "slice-huge");
            }
            const size_t stop = m.size() > 8 ? 5 : m.size() + 2;
            slices<size_t, size_t>(s, base, m, stop); slices<size_t, size_t>(c, base, m, stop); slices<int, int>(c, base, m, stop); slices<int, int>(s, base, m, stop);
            fixed(s, base, m); fixed(c, base, m);
            unchecked(s, base, m, stop); unchecked(c, base, m, stop);
            unchecked1<0>(s, base, m); unchecked1<1>(c, base, m); unchecked1<1>(s, base, m); unchecked1<3>(c, base, m);
            typedef std::integral_constant<bool, K::ct_cap != 0> HasTail;
            partial(s, base, m, HasTail()); partial(c, base, m, HasTail());
            ends(c, base, m);
            whiles(c, base, m, r);
            nested(s, base, m, r); nested(c, base, m, r);
            if (shown(c) != m) bad("views", "source", "modified the source");
            if (data(c) != base) bad("views", "source", "moved the source");
            for (int v : m) h = mix(h, static_cast<uint64_t>(v));
        }
        heap.stop();
        heap.expect_balanced(g_what.c_str());
        expect_no_live(g_what.c_str());
        seen(h);
    }
    count("sources of kind " + K::name(), scaled(n));
}

int main(int argc, char** argv) {
    init(argc, argv);
    heap_install();
#if SLICE == 0
    views<KArray<int, 4>>(10); views<KArray<int, 1>>(5); views<KArrVec<int, 6>>(20); views<KArrVec<int, 1>>(8); views<KVector<int>>(30);
    views<KArray<Tracked, 3>>(10); views<KArrVec<Tracked, 5>>(20); views<KVector<Tracked>>(20);
#elif SLICE == 1
    views<KArrayView<int, 4>>(10); views<KArrVecView<int, 6>>(20); views<KVectorView<int>>(20); views<KConstView<int>>(20);
    views<KVcb<int, 4>>(20); views<KVcq<int, 6>>(30); views<KVcb<Tracked, 3>>(10); views<KVcq<Tracked, 5>>(20);
#elif SLICE == 2
    views<KStdArray<int, 4>>(10); views<KStdVector<int>>(20); views<KFixed<int, 4>>(10); views<KBounded<int, 6>>(20); views<KOpen<int>>(20);
    views<KString>(20); views<KStringView>(20); views<KStdString>(20); views<KVector<std::string>>(20);
#endif
    sample(g_what);
    return finish();
}
