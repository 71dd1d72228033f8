// C04: an Enum holds exactly the alternative last stored; exact lifetimes; wrong access throws.
#include "efp.hpp"
#include "mon.hpp"

using namespace mon;

namespace mon {
template<> struct Val<efp::Vector<int>> {
    static efp::Vector<int> make(int v) { efp::Vector<int> r; for (int i = 0; i < 3; ++i) r.push_back(v); return r; }
    static int get(const efp::Vector<int>& t) { return t.size() == 3 && t[0] == t[2] ? t[0] : -1; }
    static void set(efp::Vector<int>& t, int v) { t = make(v); }
    static const char* name() { return "Vector<int>"; }
    static int fresh() { return -1; }
};
template<> struct Val<efp::String> {
    static efp::String make(int v) { return efp::String(std::to_string(v).c_str()); }
    static int get(const efp::String& t) { return t.size() ? std::atoi(t.c_str()) : 0; }
    static void set(efp::String& t, int v) { t = make(v); }
    static const char* name() { return "String"; }
    static int fresh() { return 0; }
};
template<> struct Val<efp::Nothing> {
    static efp::Nothing make(int) { return efp::Nothing(); }
    static int get(const efp::Nothing&) { return 0; }
    static void set(efp::Nothing&, int) {}
    static const char* name() { return "Nothing"; }
    static int fresh() { return 0; }
};
// many distinct tracked alternatives of differing sizes
template<size_t k>
struct Alt {
    Core _c;
    unsigned char pad[1 + k % 23];
    Alt() : _c(FRESH) { fill(); }
    explicit Alt(int v) : _c(v) { fill(); }
    Alt(const Alt& o) : _c(o._c, 0) { o.check(); fill(); }
    Alt(Alt&& o) noexcept : _c(std::move(o._c), 0L) { o.check(); fill(); }
    Alt& operator=(const Alt& o) { o.check(); _c.assign(o._c); return *this; }
    Alt& operator=(Alt&& o) noexcept { o.check(); _c.take(o._c); return *this; }
    ~Alt() { check(); }
    bool operator==(const Alt& o) const { return _c.get() == o._c.get(); }
    bool operator!=(const Alt& o) const { return !(*this == o); }
    void fill() { std::memset(pad, static_cast<int>(k & 255), sizeof pad); }
    void check() const {
        for (size_t i = 0; i < sizeof pad; ++i)
            if (pad[i] != (k & 255)) { violation("wrong-type", sf("an alternative of type %zu is not one", k)); return; }
    }
};
template<size_t k> struct Val<Alt<k>> {
    static Alt<k> make(int v) { return Alt<k>(v); }
    static int get(const Alt<k>& t) { t.check(); return t._c.get(); }
    static void set(Alt<k>& t, int v) { t._c.set(v); }
    static const char* name() { return "Alt"; }
    static int fresh() { return FRESH; }
};
template<typename T> struct Counts { static const int value = 0; };  // registered objects per value
template<> struct Counts<Tracked> { static const int value = 1; };
template<> struct Counts<CopyOnly> { static const int value = 1; };
template<> struct Counts<MoveOnly> { static const int value = 1; };
template<size_t a> struct Counts<Aligned<a>> { static const int value = 1; };
template<size_t k> struct Counts<Alt<k>> { static const int value = 1; };
}  // namespace mon

template<size_t i, typename... As> struct At;
template<typename A, typename... As> struct At<0, A, As...> { typedef A type; };
template<size_t i, typename A, typename... As> struct At<i, A, As...> : At<i - 1, As...> {};

// move by type and position; Maybe has its own form
template<typename E, typename T, size_t i> struct Mv {
    static T&& type(E& e) { return e.template move<T>(); }
    static T&& pos(E& e) { return e.template move<static_cast<uint8_t>(i)>(); }
};
template<typename A> struct Mv<efp::Enum<efp::Nothing, A>, A, 1> {
    static A&& type(efp::Enum<efp::Nothing, A>& e) { return e.move(); }
    static A&& pos(efp::Enum<efp::Nothing, A>& e) { return e.move(); }
};
template<typename A> struct Mv<efp::Enum<efp::Nothing, A>, efp::Nothing, 0> {
    static efp::Nothing&& type(efp::Enum<efp::Nothing, A>& e) { return std::move(e.template get<efp::Nothing>()); }
    static efp::Nothing&& pos(efp::Enum<efp::Nothing, A>& e) { return std::move(e.template get<0>()); }
};

template<bool copyable, typename... As>
struct Hist {
    typedef efp::Enum<As...> E;
    enum { N = sizeof...(As), nslots = 3 };
    struct M { int idx; int v; };  // v == ANY: unspecified (moved from)
    enum { ANY = -123456 };

    Rng& r;
    Slot<E> c[nslots];
    M m[nslots];
    std::string log, what;
    bool dead;
    uint64_t h;
    size_t steps;

    Hist(Rng& r_, const std::string& w) : r(r_), what(w), dead(false), h(0), steps(0) {}

    void note(const std::string& op) {
        ++steps;
        ++st().pulse;
        log += op + "; ";
        if (log.size() > 500) log.erase(0, log.size() - 500);
        set_tag(what + " " + log);
        for (size_t i = 0; i < op.size(); ++i) h = mix(h, static_cast<unsigned char>(op[i]));
    }
    void bad(const std::string& key, const std::string& d) {
        dead = true;
        violation("enum:" + key, what + " " + d + " after: " + log);
    }

    // ---- per-alternative observations
    template<size_t i>
    void look(size_t s) {
        typedef typename At<i, As...>::type T;
        E& e = *c[s];
        const E& k = e;
        const bool held = m[s].idx == static_cast<int>(i);
        if (!held) {
            if (N > 2 && r.below(N) >= 2) return;
            bool a = true;
            switch (r.below(6)) {
                case 0: a = throws<efp::RuntimeError>([&] { (void)k.template get<T>(); }); break;
                case 1: a = throws<efp::RuntimeError>([&] { (void)e.template get<T>(); }); break;
                case 2: a = throws<efp::RuntimeError>([&] { (void)k.template get<static_cast<uint8_t>(i)>(); }); break;
                case 3: a = throws<efp::RuntimeError>([&] { (void)e.template get<static_cast<uint8_t>(i)>(); }); break;
                case 4: a = throws<efp::RuntimeError>([&] { T&& x = Mv<E, T, i>::type(e); (void)x; }); break;
                default: a = throws<efp::RuntimeError>([&] { T&& x = Mv<E, T, i>::pos(e); (void)x; });
            }
            count("wrong accesses");
            if (!a) return bad("wrong-access", sf("access to alternative %zu while %d is held did not throw", i, m[s].idx));
        } else {
            try {
                const T* p = &k.template get<T>();
                if (p != &e.template get<T>() || p != &k.template get<static_cast<uint8_t>(i)>() || p != &e.template get<static_cast<uint8_t>(i)>())
                    return bad("access-paths", "get by type and by position show different objects");
                T&& q = Mv<E, T, i>::type(e);
                T&& q2 = Mv<E, T, i>::pos(e);
                if (&q != p || &q2 != p) return bad("move-path", "move does not show the held object");
                const char* lo = reinterpret_cast<const char*>(&k);
                const char* po = reinterpret_cast<const char*>(p);
                if (po < lo || po + sizeof(T) > lo + sizeof(E)) return bad("storage", "alternative is outside the Enum");
                if (reinterpret_cast<uintptr_t>(p) % alignof(T)) return bad("alignment", "alternative is misaligned");
                if (m[s].v != ANY) {
                    const int v = Val<T>::get(*p);
                    if (v != m[s].v) return bad("value", sf("alternative %zu holds %d, expected %d", i, v, m[s].v));
                }
            } catch (const std::exception& x) {
                return bad("access", sf("access to the held alternative %zu threw %s", i, x.what()));
            }
        }
    }
    void look_n(size_t, std::integral_constant<size_t, N>) {}
    template<size_t i>
    void look_n(size_t s, std::integral_constant<size_t, i>) {
        if (!dead) look<i>(s);
        look_n(s, std::integral_constant<size_t, i + 1>());
    }
    void check(size_t s) {
        if (c[s]->index() != m[s].idx) return bad("index", sf("slot %zu: index %d, expected %d", s, static_cast<int>(c[s]->index()), m[s].idx));
        look_n(s, std::integral_constant<size_t, 0>());
        count("states checked");
    }
    void check_all() {
        for (size_t s = 0; s < nslots && !dead; ++s) check(s);
        if (dead) return;
        static const int counts[] = {Counts<As>::value...};
        size_t want = 0;
        for (size_t s = 0; s < nslots; ++s) want += static_cast<size_t>(counts[m[s].idx]);
        if (Registry::get().size() != want) bad("live", sf("%zu alternatives alive, expected %zu", Registry::get().size(), want));
        for (size_t a = 0; a < nslots && !dead; ++a)
            for (size_t b = 0; b < nslots && !dead; ++b) {
                const bool eq = *c[a] == *c[b], ne = *c[a] != *c[b];
                if (eq == ne) return bad("eq", "== and != agree");
                if (m[a].v == ANY || m[b].v == ANY) { if (m[a].idx != m[b].idx && eq) return bad("eq", "equal with different alternatives"); continue; }
                if (eq != (m[a].idx == m[b].idx && m[a].v == m[b].v)) return bad("eq", sf("slots %zu and %zu compare wrongly", a, b));
            }
    }

    // ---- per-alternative operations
    unsigned char junk() { return static_cast<unsigned char>(r.next()); }

    template<typename T> void from_const(size_t s, int v, bool assign, std::true_type) {
        const T t = Val<T>::make(v);
        if (assign) *c[s] = t;
        else { Slot<E>& sl = c[s]; sl.make(junk(), t); }
        if (Val<T>::get(t) != (std::is_same<T, efp::Nothing>::value ? 0 : v)) bad("source", "storing a constant changed it");
    }
    template<typename T> void from_const(size_t s, int v, bool assign, std::false_type) { from_rvalue<T>(s, v, assign); }
    template<typename T> void from_rvalue(size_t s, int v, bool assign) {
        if (assign) *c[s] = Val<T>::make(v);
        else c[s].make(junk(), Val<T>::make(v));
    }
    template<size_t i> void store(size_t s) {
        typedef typename At<i, As...>::type T;
        const int v = r.range(1, 99);
        const bool assign = r.chance(70);
        if (r.chance(50)) {
            note(sf("%s-const(%zu,%zu)", assign ? "assign" : "new", s, i));
            from_const<T>(s, v, assign, std::is_copy_constructible<T>());
        } else {
            note(sf("%s-rvalue(%zu,%zu)", assign ? "assign" : "new", s, i));
            from_rvalue<T>(s, v, assign);
        }
        m[s].idx = static_cast<int>(i);
        m[s].v = std::is_same<T, efp::Nothing>::value ? 0 : v;
    }
    template<size_t i> void write(size_t s) {
        typedef typename At<i, As...>::type T;
        if (m[s].idx != static_cast<int>(i)) return;
        const int v = r.range(1, 99);
        note(sf("write(%zu)", s));
        if (r.chance(50)) Val<T>::set(c[s]->template get<T>(), v);
        else Val<T>::set(c[s]->template get<static_cast<uint8_t>(i)>(), v);
        m[s].v = std::is_same<T, efp::Nothing>::value ? 0 : v;
    }
    template<size_t i> void take(size_t s) {
        typedef typename At<i, As...>::type T;
        if (m[s].idx != static_cast<int>(i)) return;
        note(sf("moveout(%zu)", s));
        {
            T t(r.chance(50) ? Mv<E, T, i>::type(*c[s]) : Mv<E, T, i>::pos(*c[s]));
            if (m[s].v != ANY && Val<T>::get(t) != m[s].v) bad("move-out", "moved out another value");
        }
        m[s].v = ANY;
    }
    template<typename T> void own(size_t s, std::true_type) {
        note(sf("assign-own(%zu)", s));
        *c[s] = static_cast<const E&>(*c[s]).template get<T>();
    }
    template<typename T> void own(size_t s, std::false_type) {
        note(sf("assign-own-rv(%zu)", s));
        *c[s] = Mv<E, T, 0>::type(*c[s]);
    }
    template<size_t i> void assign_own(size_t s) {
        typedef typename At<i, As...>::type T;
        if (m[s].idx != static_cast<int>(i)) return;
        own<T>(s, std::is_copy_constructible<T>());
    }
    enum Op { STORE, WRITE, TAKE, OWN };
    void on(Op, size_t, size_t, std::integral_constant<size_t, N>) {}
    template<size_t i> void on(Op op, size_t alt, size_t s, std::integral_constant<size_t, i>) {
        if (alt == i) {
            switch (op) {
                case STORE: store<i>(s); break;
                case WRITE: write<i>(s); break;
                case TAKE: take<i>(s); break;
                case OWN: assign_own<i>(s); break;
            }
            return;
        }
        on(op, alt, s, std::integral_constant<size_t, i + 1>());
    }
    void on(Op op, size_t alt, size_t s) { on(op, alt, s, std::integral_constant<size_t, 0>()); }

    void moved_from(size_t s) { m[s].v = ANY; }

    void copies(size_t i, size_t j, std::true_type) {
        switch (r.below(4)) {
            case 0:
                note(sf("copy-assign(%zu,%zu)", i, j));
                *c[i] = static_cast<const E&>(*c[j]);
                m[i] = m[j];
                break;
            case 1:
                if (i == j) return;
                note(sf("copy-new(%zu,%zu)", i, j));
                c[i].make(junk(), static_cast<const E&>(*c[j]));
                m[i] = m[j];
                break;
            case 2: {
                note(sf("throwing-copy-assign(%zu,%zu)", i, j));
                Life::throw_copy_in() = 1;
                try {
                    *c[i] = static_cast<const E&>(*c[j]);
                    m[i] = m[j];
                } catch (const CopyBoom&) { count("throwing copies"); }
                Life::throw_copy_in() = -1;
                break;
            }
            default: {
                note(sf("throwing-copy-new(%zu)", j));
                Life::throw_copy_in() = 1;
                try {
                    Slot<E> t;
                    t.make(junk(), static_cast<const E&>(*c[j]));
                } catch (const CopyBoom&) { count("throwing copies"); }
                Life::throw_copy_in() = -1;
            }
        }
    }
    void copies(size_t i, size_t j, std::false_type) { moves(i, j); }
    void moves(size_t i, size_t j) {
        if (r.chance(60)) {
            note(sf("move-assign(%zu,%zu)", i, j));
            *c[i] = std::move(*c[j]);
            if (i != j) { m[i] = m[j]; moved_from(j); }
        } else if (i != j) {
            note(sf("move-new(%zu,%zu)", i, j));
            c[i].make(junk(), std::move(*c[j]));
            m[i] = m[j];
            moved_from(j);
        }
    }
    void fresh(size_t s) {
        typedef typename At<0, As...>::type T;
        note(sf("new(%zu)", s));
        c[s].kill();
        void* p = c[s].fresh(junk());
        c[s].adopt(new (p) E());
        m[s].idx = 0;
        m[s].v = Val<T>::fresh();
    }
    void step() {
        const size_t i = r.below(nslots), j = r.below(nslots);
        switch (r.below(10)) {
            case 0: case 1: case 2: on(STORE, r.below(N), i); break;
            case 3: on(WRITE, static_cast<size_t>(m[i].idx), i); break;
            case 4: on(TAKE, static_cast<size_t>(m[i].idx), i); break;
            case 5: on(OWN, static_cast<size_t>(m[i].idx), i); break;
            case 6: fresh(i); break;
            case 7: moves(i, j); break;
            default: copies(i, j, std::integral_constant<bool, copyable>());
        }
    }
    void run(size_t ops) {
        for (size_t i = 0; i < nslots; ++i) fresh(i);
        check_all();
        for (size_t k = 0; k < ops && !dead; ++k) { step(); if (!dead) check_all(); }
        for (size_t i = 0; i < nslots; ++i) c[i].kill();
        count("operations", steps);
        seen(mix(h, N));
        sample(what + ": " + log.substr(0, 300));
        std::string().swap(log);
        std::string().swap(what);
    }
};

template<bool copyable, typename... As>
void histories(const std::string& name, size_t n) {
    if (!wanted(name)) return;
    for (size_t k = 0; k < scaled(n); ++k) {
        Rng r(mix(st().seed * 1000003 + k, name.size() * 131 + sizeof...(As)));
        begin_case(name);
        HeapScope heap;
        {
            Hist<copyable, As...> hh(r, name);
            hh.run(3 + r.below(40));
        }
        heap.expect_balanced(name.c_str());
        expect_no_live(name.c_str());
    }
}

// Enums as elements of growing containers and nested in each other
void in_containers(size_t n) {
    typedef efp::Enum<int, Tracked, std::string> In;
    typedef efp::Enum<In, Tracked, efp::Vector<int>> Out;
    for (size_t k = 0; k < scaled(n); ++k) {
        Rng r(st().seed * 7919 + k);
        begin_case("containers");
        HeapScope heap;
        {
            efp::Vector<Out> v;
            std::vector<std::pair<int, int>> m;  // kind 0..4, value
            uint64_t h = 0;
            for (size_t q = 0; q < 25; ++q) {
                const int kind = r.range(0, 4), val = r.range(1, 99);
                Out o;
                if (kind == 0) o = In(val);
                if (kind == 1) o = In(Tracked(val));
                if (kind == 2) o = In(Val<std::string>::make(val));
                if (kind == 3) o = Tracked(val);
                if (kind == 4) o = Val<efp::Vector<int>>::make(val);
                const int op = r.range(0, 4);
                h = mix(h, static_cast<uint64_t>(op * 10 + kind));
                if (op <= 1 || v.empty()) { v.push_back(o); m.push_back(std::make_pair(kind, val)); }
                else if (op == 2) { const size_t at = r.below(v.size() + 1); v.insert(at, o); m.insert(m.begin() + static_cast<long>(at), std::make_pair(kind, val)); }
                else if (op == 3) { const size_t at = r.below(v.size()); v[at] = o; m[at] = std::make_pair(kind, val); }
                else { const size_t at = r.below(v.size()); v.erase(at); m.erase(m.begin() + static_cast<long>(at)); }
                if (v.size() != m.size()) { violation("enum:in-container", "size"); break; }
                bool ok = true;
                for (size_t i = 0; i < m.size(); ++i) {
                    const Out& e = v[i];
                    int gk = -1, gv = -1;
                    try {
                        if (e.index() == 0) {
                            const In& in = e.get<In>();
                            gk = in.index();
                            gv = gk == 0 ? in.get<int>() : gk == 1 ? in.get<Tracked>().get() : Val<std::string>::get(in.get<std::string>());
                        } else { gk = 2 + e.index(); gv = gk == 3 ? e.get<Tracked>().get() : Val<efp::Vector<int>>::get(e.get<efp::Vector<int>>()); }
                    } catch (const std::exception&) {}
                    if (gk != m[i].first || gv != m[i].second) { violation("enum:in-container", sf("element %zu is (%d,%d), expected (%d,%d)", i, gk, gv, m[i].first, m[i].second)); ok = false; break; }
                }
                if (!ok) break;
                count("container states checked");
            }
            seen(h);
        }
        heap.expect_balanced("containers");
        expect_no_live("containers");
    }
}

template<size_t... is> struct Idx {};
template<size_t n, size_t... is> struct MkIdx : MkIdx<n - 1, n - 1, is...> {};
template<size_t... is> struct MkIdx<0, is...> { typedef Idx<is...> type; };

template<size_t... is>
void many(const std::string& name, size_t n, Idx<is...>) {
    histories<true, Alt<is>...>(name, n);
}

// every alternative position of one arity: store, copy, move, assign over the neighbours, compare, wrong access
template<typename I> struct MkEnum;
template<size_t... is> struct MkEnum<Idx<is...>> { typedef efp::Enum<Alt<is>...> type; };

template<size_t N>
struct Sweep {
    typedef typename MkEnum<typename MkIdx<N>::type>::type E;
    template<size_t i>
    static void expect(const E& e, int v, const char* what) {
        int got = -1;
        try { got = Val<Alt<i>>::get(e.template get<static_cast<uint8_t>(i)>()); } catch (const std::exception&) {}
        if (e.index() != i || got != v)
            violation(std::string("sweep:") + what, sf("arity %zu position %zu: index %d value %d, expected value %d", N, i, static_cast<int>(e.index()), got, v));
        if (Registry::get().size() == 0) violation("sweep:dead", "nothing alive");
    }
    template<size_t i>
    static void one(Rng& r) {
        const size_t other = (i * 7 + 3) % N;
        begin_case(sf("sweep %zu/%zu", i, N));
        const int v = r.range(1, 99);
        HeapScope heap;
        {
            Slot<E> a, b, c, d;
            a.make(0xA5, Alt<i>(v));
            expect<i>(*a, v, "store");
            b.make(0x5A, static_cast<const E&>(*a));
            expect<i>(*b, v, "copy");
            expect<i>(*a, v, "copy-source");
            c.make(0xFF, std::move(*b));
            expect<i>(*c, v, "move");
            d.make(0x11, Alt<other>(5));
            if (!(*a == *c) || *a != *c || (i != other && *a == *d)) violation("sweep:eq", sf("arity %zu position %zu", N, i));
            d->operator=(static_cast<const E&>(*a));
            expect<i>(*d, v, "copy-assign");
            *b = Alt<other>(6);
            expect<other>(*b, 6, "assign-other");
            *b = std::move(*d);
            expect<i>(*b, v, "move-assign");
            const size_t live = Registry::get().size();
            if (live != 4) violation("sweep:live", sf("%zu alive, expected 4 (arity %zu position %zu)", live, N, i));
            if (i != other && !throws<efp::RuntimeError>([&] { (void)a->template get<Alt<other>>(); }))
                violation("sweep:wrong-access", sf("arity %zu position %zu", N, i));
        }
        heap.expect_balanced("sweep");
        expect_no_live("sweep");
        count("positions swept");
        seen(mix(N, i));
    }
    template<size_t... is> static void each(Idx<is...>) {
        Rng r(st().seed + N);
        int d[] = {(one<is>(r), 0)...};
        (void)d;
    }
    static void all() { each(typename MkIdx<N>::type()); }
};

int main(int argc, char** argv) {
    init(argc, argv);
    heap_install();
#ifndef BIG
    histories<true, int, double, std::string, Tracked, Odd, CopyOnly, Aligned<64>, efp::Vector<int>>("mixed8", 1500);
    histories<true, Tracked, CopyOnly>("two", 800);
    histories<true, CopyOnly, uint8_t, efp::String>("three", 800);
    histories<true, Tracked>("one", 300);
    histories<true, efp::Nothing, Tracked>("maybe", 800);
    histories<true, efp::Nothing, Aligned<64>>("maybe-aligned", 300);
    histories<false, MoveOnly, int, Tracked>("moveonly", 800);
    histories<true, uint8_t, Aligned<32>, char>("small-first", 300);
    many("alts5", 300, MkIdx<5>::type());
    in_containers(400);
#else
    many("alts9", 300, MkIdx<9>::type());
    many("alts17", 300, MkIdx<17>::type());
#if BIG > 1
    many("alts33", 300, MkIdx<33>::type());
    many("alts65", 300, MkIdx<65>::type());
    many("alts128", 200, MkIdx<128>::type());
#else
    Sweep<2>::all(); Sweep<4>::all(); Sweep<8>::all(); Sweep<16>::all(); Sweep<32>::all();
    Sweep<33>::all(); Sweep<64>::all(); Sweep<128>::all();
#endif
#endif
    return finish();
}
