// Random histories over Vector, ArrVec and Array against a std::vector<int> model.
// MODEL_ORACLE: report differences from the model (C01). Otherwise only lifetimes, heap balance and
// sanitizers decide (C02); a difference from the model then merely ends the history.
#ifndef VERIF_SEQHIST_HPP_
#define VERIF_SEQHIST_HPP_

#include "efp.hpp"
#include "mon.hpp"

namespace seqhist {

using namespace mon;

typedef std::true_type Yes;
typedef std::false_type No;

enum Kind { kVector, kArrVec, kArray };

template<typename C> struct Info;

template<typename A>
struct Info<efp::Vector<A>> {
    static const Kind kind = kVector;
    static const size_t cap = ~static_cast<size_t>(0);
    typedef A Elem;
    static std::string name() { return std::string("Vector<") + Val<A>::name() + ">"; }
};

template<typename A>
struct Info<efp::Vector<A, MonAlloc<A>>> {
    static const Kind kind = kVector;
    static const size_t cap = ~static_cast<size_t>(0);
    typedef A Elem;
    static std::string name() { return std::string("Vector<") + Val<A>::name() + ",allocator>"; }
};

template<typename A, size_t n>
struct Info<efp::ArrVec<A, n>> {
    static const Kind kind = kArrVec;
    static const size_t cap = n;
    typedef A Elem;
    static std::string name() { return std::string("ArrVec<") + Val<A>::name() + "," + std::to_string(n) + ">"; }
};

template<typename A, size_t n>
struct Info<efp::Array<A, n>> {
    static const Kind kind = kArray;
    static const size_t cap = n;
    typedef A Elem;
    static std::string name() { return std::string("Array<") + Val<A>::name() + "," + std::to_string(n) + ">"; }
};

template<Kind k> struct KindTag {};

typedef std::vector<int> Model;

template<typename C, bool copyable, bool comparable>
class History {
    typedef Info<C> In;
    typedef typename In::Elem A;
    typedef KindTag<In::kind> KT;
    typedef std::integral_constant<bool, copyable> Copyable;
    typedef std::integral_constant<bool, comparable> Comparable;
    enum { nslots = 3 };

public:
    History(Rng& r, bool model_oracle, size_t big = 0) : _r(r), _oracle(model_oracle), _big(big), _dead(false), _steps(0), _h(0) {}

    void run(size_t ops) {
        {
            HeapScope heap;
            Slot<C> c[nslots];
            Model m[nslots];
            _log.clear();
            _c = c;
            _m = m;
            for (size_t i = 0; i < nslots && !_dead; ++i) construct(i);
            for (size_t k = 0; k < ops && !_dead; ++k) step();
            for (size_t i = 0; i < nslots; ++i) c[i].kill();
            { Model none; for (size_t i = 0; i < nslots; ++i) none.swap(m[i]), none = Model(); }
            std::string().swap(_log);
            std::string().swap(_op);
            heap.stop();
            if (Registry::get().size() == 0) heap.expect_balanced(In::name().c_str());
        }
        expect_no_live(In::name().c_str());
        count("operations", _steps);
        seen(_h);
    }

private:
    Rng& _r;
    bool _oracle;
    size_t _big;     // lengths up to this one also occur
    bool _dead;
    size_t _steps;
    uint64_t _h;
    std::string _log;
    Slot<C>* _c;
    Model* _m;
    std::string _op;

    unsigned char junk() { return static_cast<unsigned char>(_r.next()); }
    int val() { return _r.range(1, 99); }

    void note(const std::string& op) {
        _op = op;
        ++_steps;
        ++st().pulse;
        _log += op;
        _log += "; ";
        if (_log.size() > 600) _log.erase(0, _log.size() - 600);
        set_tag(In::name() + " " + _log);
        uint64_t h = 1469598103934665603ull;
        for (size_t i = 0; i < op.size() && op[i] != '('; ++i) h = (h ^ static_cast<unsigned char>(op[i])) * 1099511628211ull;
        _h = mix(_h, h);
    }

    void differ(const char* key, const std::string& d) {
        _dead = true;
        if (_oracle) violation(std::string("list:") + key, In::name() + " " + d + " after: " + _log);
    }

    void check(size_t i) {
        C& c = *_c[i];
        const C& k = c;
        const Model& m = _m[i];
        if (c.size() != m.size()) return differ("size", sf("slot %zu size %zu, list has %zu", i, c.size(), m.size()));
        if (efp::length(k) != m.size()) return differ("length", "length differs from size");
        if (k.empty() != m.empty()) return differ("empty", "empty() differs");
        if (c.capacity() < c.size()) return differ("capacity", "capacity below size");
        if (In::cap != ~static_cast<size_t>(0) && c.capacity() != In::cap) return differ("capacity", "static capacity differs");
        if (static_cast<size_t>(k.end() - k.begin()) != m.size() || static_cast<size_t>(c.end() - c.begin()) != m.size())
            return differ("range", "end - begin differs from size");
        if (k.data() != k.begin() || c.data() != c.begin() || k.data() != c.data()) return differ("data", "data() is not begin()");
        for (size_t j = 0; j < m.size(); ++j) {
            if (&k[j] != k.begin() + j || &c[j] != c.data() + j) return differ("index", "operator[] is not data()+i");
            const int got = Val<A>::get(k[j]);
            if (got != m[j]) {
                Model all;
                for (size_t q = 0; q < m.size(); ++q) all.push_back(Val<A>::get(k[q]));
                return differ("elements", sf("slot %zu has ", i) + show(all) + ", list has " + show(m));
            }
        }
        _h = mix(_h, m.size() * 1000003 + c.capacity());
    }

    void check_all() {
        for (size_t i = 0; i < nslots && !_dead; ++i) if (_c[i].live()) check(i);
    }

    // ---- equality of all pairs
    void check_eq(Yes) {
        for (size_t i = 0; i < nslots && !_dead; ++i)
            for (size_t j = 0; j < nslots && !_dead; ++j) {
                if (!_c[i].live() || !_c[j].live()) continue;
                const C& a = *_c[i];
                const C& b = *_c[j];
                if ((a == b) != (_m[i] == _m[j])) differ("equality", show(_m[i]) + (a == b ? " == " : " != ") + show(_m[j]));
            }
    }
    void check_eq(No) {}

    // ---- constructions
    template<size_t n>
    void from_il(size_t i, std::initializer_list<A> il, const Model& m) {
        _c[i].kill();
        try {
            void* p = _c[i].fresh(junk());
            _c[i].adopt(new (p) C(il));
            _m[i] = m;
            if (In::kind == kArrVec && m.size() > In::cap) differ("no-throw", "initializer list longer than capacity accepted");
            if (In::kind == kArray && m.size() != In::cap) differ("no-throw", "initializer list of wrong length accepted");
        } catch (const std::exception&) {
            if (m.size() == In::cap || (In::kind == kArrVec && m.size() <= In::cap) || In::kind == kVector)
                differ("throw", "initializer list refused");
            if (_dead) return;
            make_default(i);
        }
    }

    void init_list(size_t i, Yes) {
        const int a = val(), b = val(), c = val(), d = val(), e = val();
        size_t n = _r.below(6);
        if (In::kind == kArray && !_r.chance(20)) n = In::cap;
        note(sf("il(%zu,%zu)", i, n));
        Model m;
        const int all[5] = {a, b, c, d, e};
        for (size_t k = 0; k < n && k < 5; ++k) m.push_back(all[k]);
        typedef Val<A> V;
        switch (n) {
            case 0: from_il<0>(i, {}, m); break;
            case 1: from_il<1>(i, {V::make(a)}, m); break;
            case 2: from_il<2>(i, {V::make(a), V::make(b)}, m); break;
            case 3: from_il<3>(i, {V::make(a), V::make(b), V::make(c)}, m); break;
            case 4: from_il<4>(i, {V::make(a), V::make(b), V::make(c), V::make(d)}, m); break;
            case 5: from_il<5>(i, {V::make(a), V::make(b), V::make(c), V::make(d), V::make(e)}, m); break;
            default: make_default(i);
        }
    }
    void init_list(size_t i, No) { make_default(i); }

    void make_default(size_t i) {
        note(sf("new(%zu)", i));
        _c[i].kill();
        void* p = _c[i].fresh(junk());
        _c[i].adopt(new (p) C());
        _m[i].assign(In::kind == kArray ? In::cap : 0, Val<A>::fresh());
    }

    // conversion to Vector from Array / ArrVec, to ArrVec from a smaller ArrVec
    void convert(size_t i, KindTag<kVector>, Yes) {
        note(sf("conv(%zu)", i));
        _c[i].kill();
        _m[i].clear();
        if (_r.chance(50)) {
            efp::Array<A, 4> a;
            for (size_t k = 0; k < 4; ++k) { const int v = val(); Val<A>::set(a[k], v); _m[i].push_back(v); }
            void* p = _c[i].fresh(junk());
            _c[i].adopt(new (p) C(a));
        } else {
            efp::ArrVec<A, 6> a;
            const size_t n = _r.below(7);
            for (size_t k = 0; k < n; ++k) { const int v = val(); a.push_back(Val<A>::make(v)); _m[i].push_back(v); }
            void* p = _c[i].fresh(junk());
            _c[i].adopt(new (p) C(a));
        }
    }
    void convert(size_t i, KindTag<kArrVec>, Yes) {
        note(sf("conv(%zu)", i));
        _c[i].kill();
        _m[i].clear();
        const size_t small = In::cap > 1 ? In::cap - 1 : 1;
        Slot<efp::ArrVec<A, (In::cap > 1 ? In::cap - 1 : 1)>> s;
        s.make(junk());
        const size_t n = _r.below(small + 1);
        for (size_t k = 0; k < n; ++k) { const int v = val(); s->push_back(Val<A>::make(v)); _m[i].push_back(v); }
        void* p = _c[i].fresh(junk());
        _c[i].adopt(new (p) C(*s));
    }
    template<typename K, typename Y> void convert(size_t i, K, Y) { make_default(i); }

    void construct(size_t i) {
        switch (_r.below(4)) {
            case 0: make_default(i); break;
            case 1: case 2: init_list(i, Copyable()); break;
            default: convert(i, KT(), Copyable()); break;
        }
        if (!_dead) check(i);
    }

    // ---- copies
    void copy_ops(Yes) {
        const size_t i = _r.below(nslots), j = _r.below(nslots);
        switch (_r.below(3)) {
            case 0:
                if (i == j) return;
                note(sf("copy_ctor(%zu<-%zu)", i, j));
                _c[i].make(junk(), static_cast<const C&>(*_c[j]));
                _m[i] = _m[j];
                break;
            case 1:
                note(sf("copy_assign%s(%zu<-%zu)", i == j ? "_self" : "", i, j));
                *_c[i] = static_cast<const C&>(*_c[j]);
                _m[i] = _m[j];
                break;
            default: {  // into a temporary that is then dropped, and passed by value
                note(sf("copy_temp(%zu)", i));
                const C t(*_c[i]);
                if (t.size() != _m[i].size()) differ("size", "temporary copy has another size");
            }
        }
    }
    void copy_ops(No) {}

    void move_ops() {
        const size_t i = _r.below(nslots), j = _r.below(nslots);
        if (i == j) {
            note(sf("move_assign_self(%zu)", i));
            C& a = *_c[i];
            C& b = *_c[i];
            a = std::move(b);
            return;
        }
        if (_r.chance(50)) {
            note(sf("move_ctor(%zu<-%zu)", i, j));
            _c[i].make(junk(), std::move(*_c[j]));
        } else {
            note(sf("move_assign(%zu<-%zu)", i, j));
            *_c[i] = std::move(*_c[j]);
        }
        _m[i] = _m[j];
        check(i);
        if (_dead) return;
        // the source is valid but unspecified: give it a known state again
        revive(j, KT(), Copyable());
    }

    void revive(size_t j, KindTag<kArray>, Yes) {
        if (_r.chance(50)) { construct(j); return; }
        const size_t i = (j + 1) % nslots;
        note(sf("copy_assign(%zu<-%zu)", j, i));
        *_c[j] = static_cast<const C&>(*_c[i]);
        _m[j] = _m[i];
    }
    void revive(size_t j, KindTag<kArray>, No) { construct(j); }
    template<typename K, typename Y> void revive(size_t j, K, Y) {
        switch (_r.below(4)) {
            case 0: construct(j); break;
            case 1: {
                note(sf("clear(%zu)", j));
                _c[j]->clear();
                _m[j].clear();
                break;
            }
            default: {
                // usable right away: clear and fill again
                note(sf("refill(%zu)", j));
                _c[j]->clear();
                _m[j].clear();
                const size_t n = _r.below(In::cap < 4 ? In::cap + 1 : 4);
                for (size_t k = 0; k < n; ++k) { const int v = val(); _c[j]->push_back(Val<A>::make(v)); _m[j].push_back(v); }
            }
        }
    }

    // expects an exception and no change
    template<typename F> void refused(const char* what, const F& f) {
        bool threw = false;
        try { f(); } catch (const std::exception&) { threw = true; }
        count("refusals");
        if (!threw) differ("no-throw", std::string(what) + " was accepted");
    }

    // ---- element access
    void write_elem() {
        const size_t i = _r.below(nslots);
        if (_m[i].empty()) return;
        const size_t k = _r.below(_m[i].size());
        const int v = val();
        note(sf("write(%zu,%zu)", i, k));
        C& c = *_c[i];
        switch (_r.below(4)) {
            case 0: Val<A>::set(c[k], v); break;
            case 1: Val<A>::set(*(c.begin() + k), v); break;
            case 2: Val<A>::set(efp::nth(k, c), v); break;
            default: Val<A>::set(efp::data(c)[k], v); break;
        }
        _m[i][k] = v;
    }

    // ---- growth
    void emplace(C& c, int v, KindTag<kVector>) { c.emplace_back(Val<A>::make(v)); }
    template<typename K> void emplace(C& c, int v, K) { c.push_back(Val<A>::make(v)); }

    void push_copy(C& c, int v, Yes) { const A a = Val<A>::make(v); c.push_back(a); }
    void push_copy(C& c, int v, No) { c.push_back(Val<A>::make(v)); }
    void push_alias(C& c, Model& m, Yes) {
        const size_t k = _r.below(m.size());
        const C& cc = c;
        switch (_r.below(3)) {
            case 0: c.push_back(c[k]); break;
            case 1: c.push_back(cc[k]); break;
            default: push_alias_emplace(c, k, KT());
        }
        m.push_back(static_cast<int>(m[k]));
    }
    void push_alias_emplace(C& c, size_t k, KindTag<kVector>) { c.emplace_back(c[k]); }
    template<typename K> void push_alias_emplace(C& c, size_t k, K) { c.push_back(c[k]); }
    void push_alias(C& c, Model& m, No) { const int v = val(); c.push_back(Val<A>::make(v)); m.push_back(v); }

    void push(size_t i) {
        C& c = *_c[i];
        Model& m = _m[i];
        if (m.size() >= In::cap) {
            note(sf("push_full(%zu)", i));
            const int v = val();
            const unsigned how = static_cast<unsigned>(_r.below(2));
            refused("push_back beyond the capacity", [&] { if (how) c.push_back(Val<A>::make(v)); else push_copy(c, v, Copyable()); });
            return;
        }
        const int v = val();
        switch (_r.below(4)) {
            case 0: note(sf("push(%zu)", i)); push_copy(c, v, Copyable()); m.push_back(v); break;
            case 1: note(sf("push_rv(%zu)", i)); c.push_back(Val<A>::make(v)); m.push_back(v); break;
            case 2: note(sf("emplace(%zu)", i)); emplace(c, v, KT()); m.push_back(v); break;
            default:
                if (m.empty()) return;
                note(sf("push_alias(%zu)", i));
                push_alias(c, m, Copyable());
        }
    }

    void insert(size_t i, Yes) {
        C& c = *_c[i];
        Model& m = _m[i];
        const size_t k = _r.below(m.size() + 1);
        const int v = val();
        const A a = Val<A>::make(v);
        if (_r.chance(8)) {
            const size_t far = m.size() + 1 + _r.below(3);
            note(sf("insert_range(%zu,%zu)", i, far));
            refused("insert beyond the end", [&] { c.insert(far, a); });
            return;
        }
        if (m.size() >= In::cap) {
            note(sf("insert_full(%zu)", i));
            refused("insert beyond the capacity", [&] { c.insert(k, a); });
            return;
        }
        if (!m.empty() && _r.chance(30)) {
            const size_t q = _r.below(m.size());
            note(sf("insert_alias(%zu,%zu,%zu)", i, k, q));
            c.insert(k, c[q]);
            const int mv = m[q];
            m.insert(m.begin() + static_cast<ptrdiff_t>(k), mv);
        } else {
            note(sf("insert(%zu,%zu)", i, k));
            c.insert(k, a);
            m.insert(m.begin() + static_cast<ptrdiff_t>(k), v);
        }
    }
    void insert(size_t i, No) { push(i); }

    size_t impossible(C& c, KindTag<kVector>) { return c.max_size(); }
    template<typename K> size_t impossible(C&, K) { return (static_cast<size_t>(-1) >> 1) + _r.below(2); }

    void shrink(C& c, KindTag<kVector>) { c.shrink_to_fit(); }
    template<typename K> void shrink(C&, K) {}

    // ---- one step for the growing containers
    template<typename K> void mutate(K) {
        const size_t i = _r.below(nslots);
        C& c = *_c[i];
        Model& m = _m[i];
        switch (_r.below(13)) {
            case 0: case 1: case 2: push(i); break;
            case 3: case 4: insert(i, Copyable()); break;
            case 5: case 6:
                if (m.empty() || _r.chance(8)) {
                    const size_t far = m.size() + _r.below(3);
                    note(sf("erase_range(%zu,%zu)", i, far));
                    refused("erase beyond the end", [&] { c.erase(far); });
                } else {
                    const size_t k = _r.below(m.size());
                    note(sf("erase(%zu,%zu)", i, k));
                    c.erase(k);
                    m.erase(m.begin() + static_cast<ptrdiff_t>(k));
                }
                break;
            case 7:
                note(sf("pop(%zu)", i));
                if (m.empty()) refused("pop_back of an empty container", [&] { c.pop_back(); });
                else { c.pop_back(); m.pop_back(); }
                break;
            case 8: {
                if (_r.chance(10)) {   // lengths nothing can have
                    const size_t n = _r.chance(50) ? static_cast<size_t>(-1) : impossible(c, KT());
                    note(sf("impossible(%zu,%zu)", i, n));
                    if (_r.chance(60) || sizeof(A) == 1) refused("resize to an impossible length", [&] { c.resize(n); });
                    else refused("reserve of an impossible length", [&] { c.reserve(static_cast<size_t>(-1)); });
                    break;
                }
                size_t n = _r.chance(70) ? _r.below(_big && _r.chance(40) ? _big : 9) : m.size() + _r.below(3);
                note(sf("resize(%zu,%zu)", i, n));
                if (n > In::cap) refused("resize beyond the capacity", [&] { c.resize(n); });
                else { c.resize(n); m.resize(n, Val<A>::fresh()); }
                break;
            }
            case 9: {
                const size_t n = _r.below(_big && _r.chance(40) ? _big + _big / 8 : 24);
                note(sf("reserve(%zu,%zu)", i, n));
                if (n > In::cap) refused("reserve beyond the capacity", [&] { c.reserve(n); });
                else {
                    c.reserve(n);
                    if (c.capacity() < n) differ("reserve", "capacity below what was reserved");
                }
                break;
            }
            case 10:
                note(sf("shrink(%zu)", i));
                shrink(c, KT());
                break;
            case 11:
                if (_r.chance(60)) return;
                note(sf("clear(%zu)", i));
                c.clear();
                m.clear();
                break;
            default: {  // growth burst
                const size_t n = _r.below(_r.chance(10) ? 70 : _big && _r.chance(40) ? _big : 8);
                note(sf("burst(%zu,%zu)", i, n));
                for (size_t k = 0; k < n && m.size() < In::cap; ++k) { const int v = val(); c.push_back(Val<A>::make(v)); m.push_back(v); }
            }
        }
    }

    void mutate(KindTag<kArray>) {
        const size_t i = _r.below(nslots);
        C& c = *_c[i];
        const size_t n = _r.below(In::cap + 4);
        if (_r.chance(50)) {
            note(sf("resize(%zu,%zu)", i, n));
            if (n != In::cap) refused("resize of an Array to another size", [&] { c.resize(n); });
            else c.resize(n);
        } else {
            note(sf("reserve(%zu,%zu)", i, n));
            if (n > In::cap) refused("reserve of an Array beyond its size", [&] { c.reserve(n); });
            else c.reserve(n);
        }
    }

    void step() {
        const size_t before = _steps;
        const unsigned what = static_cast<unsigned>(_r.below(100));
        try {
            if (what < 12) copy_ops(Copyable());
            else if (what < 22) move_ops();
            else if (what < 26) construct(_r.below(nslots));
            else if (what < (In::kind == kArray ? 80u : 36u)) write_elem();
            else mutate(KT());
        } catch (const std::exception& e) {
            differ("throw", std::string("unexpected exception: ") + e.what());
        }
        if (_dead || before == _steps) return;
        check_all();
        if (!_dead && _r.chance(25)) check_eq(Comparable());
    }
};

template<typename C, bool copyable, bool comparable>
void campaign(size_t histories, size_t ops, bool oracle, uint64_t salt, size_t big = 0) {
    const std::string name = Info<C>::name();
    if (!wanted(name)) return;
    for (size_t k = 0; k < scaled(histories); ++k) {
        Rng r(mix(mix(st().seed, salt), k + 1));
        begin_case(name + sf(" history %zu", k));
        History<C, copyable, comparable> h(r, oracle, big);
        h.run(5 + r.below(ops));
        if (st().violations > 200) break;
    }
    count("histories of " + name, scaled(histories));
}

}  // namespace seqhist

#endif
