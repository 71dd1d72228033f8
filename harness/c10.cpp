// C10: searches report exactly the matching positions.
#include "seqs.hpp"

using namespace mon;

#ifndef SLICE
#define SLICE 0
#endif

static std::string g_what;
static void bad(const char* op, const std::string& detail) {
    violation(std::string("result:") + op, g_what + " " + op + " " + detail);
}

template<typename R>
static Model indices(const R& r) {
    Model m;
    for (size_t i = 0; i < r.size(); ++i) m.push_back(static_cast<int>(r[i]));
    return m;
}

// Trace of predicate calls: positions within the source
template<typename A>
struct Trace {
    const A* base;
    size_t len;
    std::vector<long> pos;
    void call(const A& a) { pos.push_back(&a - base); }
    // exactly positions 0..k-1, in order
    void expect(size_t k, const char* op) {
        count("predicate calls observed", pos.size());
        bool ok = pos.size() == k;
        for (size_t i = 0; ok && i < k; ++i) ok = pos[i] == static_cast<long>(i);
        if (!ok) {
            std::string s;
            for (size_t i = 0; i < pos.size() && i < 30; ++i) s += sf(" %ld", pos[i]);
            violation(std::string("calls:") + op, g_what + " predicate called at" + s + sf(", expected the first %zu positions once each", k));
        }
        pos.clear();
    }
};

template<typename A> static bool fp_odd(const A& a) { return Val<A>::get(a) % 2 == 1; }

template<typename S, typename A>
static void search(const S& s, const A* base, const Model& m, Rng& r) {
    const size_t len = m.size();
    for (int t = 0; t < 6; ++t) {
        // a value that is there once, several times, or not at all
        const int v = t < 4 && len ? m[t == 0 ? 0 : t == 1 ? len - 1 : r.below(len)] : r.range(1, 99);
        Model all;
        for (size_t i = 0; i < len; ++i) if (m[i] == v) all.push_back(static_cast<int>(i));
        const bool any = !all.empty();
        count(any ? "searches with a match" : "searches without a match");
        if (all.size() > 1) count("searches with several matches");
        const A key = Val<A>::make(v);
        if (efp::elem(key, s) != any) bad("elem", any ? "misses a member" : "finds a non-member");
        {
            const efp::Maybe<size_t> i = efp::elem_index(key, s);
            if (static_cast<bool>(i) != any || (any && i.value() != static_cast<size_t>(all[0]))) bad("elem_index", sf("of %d", v));
        }
        { const auto is = efp::elem_indices(key, s); if (indices(is) != all) bad("elem_indices", sf("of %d gives ", v) + show(indices(is)) + " expected " + show(all)); }
        if (any) {   // the key is itself an element of the sequence
            const A& own = base[all.back()];
            if (!efp::elem(own, s)) bad("elem", "misses its own element");
            const efp::Maybe<size_t> i = efp::elem_index(own, s);
            if (!i || i.value() != static_cast<size_t>(all[0])) bad("elem_index", "of its own element");
            if (indices(efp::elem_indices(own, s)) != all) bad("elem_indices", "of its own element");
        }
        const size_t till = any ? static_cast<size_t>(all[0]) + 1 : len;
        Trace<A> tr = {base, len, {}};
        const auto p = [&](const A& a) { tr.call(a); return Val<A>::get(a) == v; };
        if (efp::find(p, s) != any) bad("find", "");
        tr.expect(till, "find");
        { const efp::Maybe<size_t> i = efp::find_index(p, s); if (static_cast<bool>(i) != any || (any && i.value() != static_cast<size_t>(all[0]))) bad("find_index", sf("of %d", v)); }
        tr.expect(till, "find_index");
        { const auto is = efp::find_indices(p, s); if (indices(is) != all) bad("find_indices", sf("of %d gives ", v) + show(indices(is)) + " expected " + show(all)); }
        tr.expect(len, "find_indices");
    }
    // predicates that match everything, nothing, or by position only
    for (int t = 0; t < 4; ++t) {
        Trace<A> tr = {base, len, {}};
        size_t k = 0;
        const size_t at = r.below(len + 1);
        Model all;
        for (size_t i = 0; i < len; ++i) if (t == 0 || (t == 2 && i == at) || (t == 3 && i >= at)) all.push_back(static_cast<int>(i));
        const auto p = [&](const A& a) { tr.call(a); const size_t i = k++; return t == 0 || (t == 2 && i == at) || (t == 3 && i >= at); };
        const size_t till = all.empty() ? len : static_cast<size_t>(all[0]) + 1;
        if (efp::find(p, s) != !all.empty()) bad("find", "by position");
        tr.expect(till, "find");
        k = 0;
        { const efp::Maybe<size_t> i = efp::find_index(p, s); if (static_cast<bool>(i) != !all.empty() || (!all.empty() && i.value() != static_cast<size_t>(all[0]))) bad("find_index", "by position"); }
        tr.expect(till, "find_index");
        k = 0;
        if (indices(efp::find_indices(p, s)) != all) bad("find_indices", "by position");
        tr.expect(len, "find_indices");
    }
    Model odd;
    for (size_t i = 0; i < len; ++i) if (m[i] % 2 == 1) odd.push_back(static_cast<int>(i));
    if (efp::find(fp_odd<A>, s) != !odd.empty()) bad("find", "by function pointer");
    { const efp::Maybe<size_t> i = efp::find_index(fp_odd<A>, s); if (static_cast<bool>(i) != !odd.empty() || (i && i.value() != static_cast<size_t>(odd[0]))) bad("find_index", "by function pointer"); }
    if (indices(efp::find_indices(fp_odd<A>, s)) != odd) bad("find_indices", "by function pointer");
    // truth values other than bool
    if (efp::find([](const A& a) -> int { return Val<A>::get(a) % 2 ? 256 : 0; }, s) != !odd.empty()) bad("find", "predicate returning int");
    if (indices(efp::find_indices([](const A& a) -> int { return Val<A>::get(a) % 2 ? 256 : 0; }, s)) != odd) bad("find_indices", "predicate returning int");
}

template<typename K>
static void kind(size_t n) {
    typedef typename K::Elem A;
    if (!wanted(K::name())) return;
    for (size_t t = 0; t < scaled(n); ++t) {
        Rng r(mix(st().seed * 23 + t, std::hash<std::string>()(K::name())));
        const Model m = t == 0 && K::fits(0) ? Model() : list_for<K>(r, r.chance(3) ? 600 : 12);
        g_what = K::name() + show(m);
        begin_case(g_what);
        HeapScope heap;
        {
            K k(m, r);
            using efp::data;
            const typename K::Seq& c = k.cseq();
            const A* base = data(c);
            search(c, base, m, r);
            search(k.seq(), base, m, r);
            if (shown(c) != m || data(c) != base) violation("input:search", g_what + " the sequence changed");
        }
        heap.stop();
        heap.expect_balanced(g_what.c_str());
        expect_no_live(g_what.c_str());
        uint64_t h = std::hash<std::string>()(K::name());
        for (int v : m) h = mix(h, static_cast<uint64_t>(v));
        seen(h);
    }
    count("sources of kind " + K::name(), scaled(n));
}

int main(int argc, char** argv) {
    init(argc, argv);
    heap_install();
#if SLICE == 0
    kind<KArray<int, 4>>(60); kind<KArray<int, 1>>(20); kind<KArrVec<int, 6>>(100); kind<KArrVec<int, 1>>(20); kind<KVector<int>>(150);
    kind<KArrayView<int, 4>>(30); kind<KArrVecView<int, 6>>(50); kind<KVectorView<int>>(60); kind<KConstView<int>>(40);
    kind<KVcb<int, 4>>(60); kind<KVcq<int, 6>>(100); kind<KStdArray<int, 4>>(30); kind<KStdVector<int>>(60);
    kind<KFixed<int, 4>>(30); kind<KBounded<int, 6>>(60); kind<KOpen<int>>(60);
#else
    kind<KArray<Tracked, 4>>(40); kind<KArrVec<Tracked, 6>>(60); kind<KVector<Tracked>>(60); kind<KVcb<Tracked, 4>>(40); kind<KVcq<Tracked, 6>>(60);
    kind<KVectorView<Tracked>>(30); kind<KVector<CopyOnly>>(40); kind<KStdVector<Tracked>>(40); kind<KVector<MoveOnly>>(40); kind<KArrVec<MoveOnly, 5>>(40);
    kind<KString>(60); kind<KStringView>(50); kind<KStdString>(50); kind<KVector<std::string>>(60); kind<KVector<uint8_t>>(40);
    kind<KVector<double>>(60); kind<KArrVec<Odd, 7>>(60);
#endif
    sample(g_what);
    return finish();
}
