// C06: Maybe obeys the functor, applicative and monad laws; functions run once on a value, never on nothing.
#include <functional>

#include "efp.hpp"
#include "mon.hpp"

using namespace mon;
using efp::Maybe;
using efp::nothing;

namespace mon {
template<> struct Val<efp::Vector<int>> {
    static efp::Vector<int> make(int v) { efp::Vector<int> r; for (int i = 0; i < 3; ++i) r.push_back(v); return r; }
    static int get(const efp::Vector<int>& t) { return t.size() == 3 && t[0] == t[2] ? t[0] : -1; }
    static void set(efp::Vector<int>& t, int v) { t = make(v); }
    static const char* name() { return "Vector<int>"; }
    static int fresh() { return -1; }
};
template<> struct Val<bool> {
    static bool make(int v) { return v & 1; }
    static int get(bool t) { return t; }
    static const char* name() { return "bool"; }
};
}  // namespace mon

static int g_calls;
static std::string g_where;

static void want(bool ok, const char* law) {
    count("laws evaluated");
    if (!ok) violation(std::string("maybe:") + law, g_where);
}
static void once(bool present, const char* law) {
    if (g_calls != (present ? 1 : 0)) violation(std::string("maybe:calls:") + law, g_where + sf(" the function ran %d time(s)", g_calls));
    g_calls = 0;
}

// state as an int: -1000 for nothing
template<typename A> int st_of(const Maybe<A>& m) { return m.has_value() ? Val<A>::get(m.value()) : -1000; }

template<typename A, typename B, typename C>
struct Laws {
    typedef Maybe<A> MA;
    typedef Maybe<B> MB;
    typedef Maybe<C> MC;

    static void run(size_t n) {
        for (size_t k = 0; k < scaled(n); ++k) {
            Rng r(mix(st().seed * 131 + k, std::hash<std::string>()(Val<A>::name())));
            const bool present = r.chance(60);
            const int v = r.range(1, 9);
            const int a = r.range(1, 9), b = r.range(1, 9), c = r.range(0, 12);  // function parameters
            g_where = sf("Maybe<%s> -> Maybe<%s>: %s", Val<A>::name(), Val<B>::name(), present ? "value" : "nothing");
            begin_case(g_where);
            HeapScope heap;
            one(present, v, a, b, c);
            heap.stop();
            heap.expect_balanced("maybe");
            expect_no_live("maybe");
            seen(mix(mix(present, static_cast<uint64_t>(v)), static_cast<uint64_t>(a * 1000 + b * 100 + c) + std::hash<std::string>()(g_where)));
        }
    }

    template<typename M, typename F>
    static MB r1(M& m, const F& f) { return g_calls % 2 ? m.bind(f) : (m >>= f); }

    static void one(bool present, int v, int a, int b, int c) {
        g_calls = 0;
        MA m = nothing;
        if (present) m = Val<A>::make(v);
        const MA& k = m;
        const int s0 = present ? Val<A>::get(Val<A>::make(v)) : -1000;

        // agreement of the observers
        want(k.has_value() == present && k.is_nothing() == !present && static_cast<bool>(k) == present, "observers");
        want(k.index() == (present ? 1 : 0), "index");
        want((k == MA(nothing)) == !present && (k != MA(nothing)) == present, "equality-nothing");
        want(k == k && !(k != k), "equality-reflexive");
        { const MA other(Val<A>::make(v)); want((k == other) == present && (other != k) == !present, "equality-value"); }
        {
            const int x = k.match([&](const A& q) { ++g_calls; return Val<A>::get(q); }, [&]() { ++g_calls; return -1000; });
            want(x == s0 && g_calls == 1, "match");
            const int y = k.match([&](const efp::Nothing&) { return -1000; }, [&](const A& q) { return Val<A>::get(q); });
            want(y == s0, "match-nothing-branch");
            g_calls = 0;
        }
        want(throws<efp::RuntimeError>([&] { (void)k.value(); }) == !present, "value-of-nothing");
        want(throws<efp::RuntimeError>([&] { A&& q = m.move(); (void)q; }) == !present, "move-of-nothing");
        want(st_of(k) == s0, "value");

        const auto id = [](const A& x) { ++g_calls; return x; };
        const auto f = [a](const A& x) { ++g_calls; return Val<B>::make(Val<A>::get(x) * a + 1); };
        const auto g = [b](const B& x) { ++g_calls; return Val<C>::make(Val<B>::get(x) + b); };
        const auto fm = [a, c](const A& x) -> MB { ++g_calls; if (Val<A>::get(x) > c) return nothing; return Val<B>::make(Val<A>::get(x) * a); };
        const auto gm = [b, c](const B& x) -> MC { ++g_calls; if ((Val<B>::get(x) + c) % 3 == 0) return nothing; return Val<C>::make(Val<B>::get(x) + b); };

        // functor
        want(efp::fmap(id, k) == k, "functor-identity"); once(present, "fmap");
        want(m.fmap(id) == k, "functor-identity-member"); once(present, "member fmap");
        const MB fk = efp::fmap(f, k); once(present, "fmap");
        want(st_of(fk) == (present ? Val<B>::get(Val<B>::make(s0 * a + 1)) : -1000), "fmap-value");
        want(m.fmap(f) == fk, "fmap-forms"); once(present, "member fmap");
        const MC gfk = efp::fmap(g, fk); once(present, "fmap");
        const MC gf1 = efp::fmap([&](const A& x) { return g(f(x)); }, k);
        g_calls = 0;
        want(gf1 == gfk, "functor-composition");
        want(m.fmap([&](const A& x) { return g(f(x)); }) == gfk, "functor-composition-member");
        g_calls = 0;

        // applicative
        want(efp::pure<MA>(Val<A>::make(v)).has_value() && st_of(efp::pure<MA>(Val<A>::make(v))) == Val<A>::get(Val<A>::make(v)), "pure");
        want(MA::template pure<int>(Val<A>::make(v)) == efp::pure<MA>(Val<A>::make(v)), "pure-forms");
        typedef std::function<B(const A&)> FAB;
        typedef std::function<C(const B&)> FBC;
        const Maybe<FAB> jf = FAB(f);
        const Maybe<FAB> nf = nothing;
        want(efp::ap(jf, k) == fk, "ap-is-fmap"); once(present, "ap");
        want(m.ap(jf) == fk, "ap-forms"); once(present, "member ap");
        want(efp::ap(nf, k).is_nothing() && m.ap(nf).is_nothing(), "ap-nothing"); once(false, "ap of nothing");
        typedef std::function<A(const A&)> FAA;
        want(efp::ap(Maybe<FAA>(FAA(id)), k) == k, "applicative-identity"); once(present, "ap");
        {   // homomorphism: pure f <*> pure x = pure (f x)
            const MA px = efp::pure<MA>(Val<A>::make(v));
            const MB l = efp::ap(efp::pure<Maybe<FAB>>(FAB(f)), px);
            g_calls = 0;
            want(l == efp::pure<MB>(f(Val<A>::make(v))), "applicative-homomorphism");
            // interchange: u <*> pure y = pure ($ y) <*> u
            typedef std::function<B(const FAB&)> Dollar;
            const Dollar dollar = [v](const FAB& u) { return u(Val<A>::make(v)); };
            g_calls = 0;
            for (int q = 0; q < 2; ++q) {
                const Maybe<FAB>& u = q ? jf : nf;
                want(efp::ap(u, px) == efp::ap(efp::pure<Maybe<Dollar>>(dollar), u), "applicative-interchange");
            }
            g_calls = 0;
        }
        {   // composition: pure (.) <*> u <*> v <*> w = u <*> (v <*> w)
            for (int q = 0; q < 4; ++q) {
                const Maybe<FBC> u = (q & 1) ? Maybe<FBC>(FBC(g)) : Maybe<FBC>(nothing);
                const Maybe<FAB> w = (q & 2) ? jf : nf;
                typedef std::function<C(const A&)> FAC;
                typedef std::function<FAC(const FAB&)> Step;
                typedef std::function<Step(const FBC&)> Dot;
                const Dot dot = [](const FBC& x) { return Step([x](const FAB& y) { return FAC([x, y](const A& z) { return x(y(z)); }); }); };
                const MC l = efp::ap(efp::ap(efp::ap(efp::pure<Maybe<Dot>>(dot), u), w), k);
                const MC r = efp::ap(u, efp::ap(w, k));
                want(l == r, "applicative-composition");
            }
            g_calls = 0;
        }

        // monad
        {
            const A x = Val<A>::make(v);
            const MB l = efp::bind(efp::pure<MA>(x), fm); once(true, "bind");
            want(l == fm(x), "monad-left-identity");
            MA px = efp::pure<MA>(x);
            want(px.bind(fm) == l && (px >>= fm) == l, "monad-left-identity-member");
            g_calls = 0;
        }
        const auto ret = [](const A& x) -> MA { ++g_calls; return efp::pure<MA>(x); };
        want(efp::bind(k, ret) == k, "monad-right-identity"); once(present, "bind");
        want(m.bind(ret) == k, "monad-right-identity-member"); once(present, "member bind");
        want((m >>= ret) == k, "monad-right-identity-operator"); once(present, "operator>>=");
        {
            const MC l = efp::bind(efp::bind(k, fm), gm);
            g_calls = 0;
            const MC r = efp::bind(k, [&](const A& x) { return efp::bind(fm(x), gm); });
            want(l == r, "monad-associativity");
            MB t = r1(m, fm);
            want(t.bind(gm) == l && (t >>= gm) == l, "monad-associativity-member");
            g_calls = 0;
            // fmap f m = m >>= (pure . f)
            want(efp::bind(k, [&](const A& x) { return efp::pure<MB>(f(x)); }) == fk, "monad-functor");
            // join (fmap fm m) = bind m fm
            const Maybe<MB> nested = efp::fmap(fm, k);
            const MB joined = efp::bind(nested, [](const MB& x) { return x; });
            want(joined == efp::bind(k, fm) && nested.has_value() == present, "monad-join");
            g_calls = 0;
        }

        // a throwing function passes through, the operand stays
        const auto boom = [](const A&) -> int { throw 42; };
        int seen_x = 0;
        try { (void)efp::fmap(boom, k); } catch (int x) { seen_x += x; }
        try { (void)m.fmap(boom); } catch (int x) { seen_x += x; }
        want(seen_x == (present ? 84 : 0), "throwing-function");

        // the operand is unchanged by all of this
        want(st_of(k) == s0 && k.has_value() == present, "operand-unchanged");

        // move takes the value out, by reference to the held object
        if (present) {
            const A* p = &k.template get<A>();
            A&& q = m.move();
            want(&q == p, "move-reference");
            A taken(std::move(q));
            want(Val<A>::get(taken) == s0, "move-value");
            want(m.has_value(), "move-keeps-engaged");
        }
        m = nothing;
        want(m.is_nothing(), "reset");
    }
};

static void move_only(size_t n) {
    for (size_t k = 0; k < scaled(n); ++k) {
        begin_case("move-only");
        HeapScope heap;
        {
            const int v = static_cast<int>(k % 50) + 1;
            Maybe<MoveOnly> m = MoveOnly(v);
            Maybe<MoveOnly> o = std::move(m);
            g_where = "move-only";
            want(o.has_value(), "move-only");
            MoveOnly x(o.move());
            want(x.get() == v, "move-only-value");
            o = nothing;
            want(o.is_nothing() && throws<efp::RuntimeError>([&] { MoveOnly&& y = o.move(); (void)y; }), "move-only-nothing");
        }
        heap.expect_balanced("move-only");
        expect_no_live("move-only");
    }
}

int main(int argc, char** argv) {
    init(argc, argv);
    heap_install();
    Laws<int, int, int>::run(300);
    Laws<int, std::string, int>::run(300);
    Laws<std::string, int, std::string>::run(300);
    Laws<Tracked, Tracked, Tracked>::run(400);
    Laws<Tracked, int, CopyOnly>::run(300);
    Laws<CopyOnly, efp::Vector<int>, Tracked>::run(300);
    Laws<efp::Vector<int>, double, uint8_t>::run(200);
    Laws<double, bool, Odd>::run(200);
    Laws<bool, Tracked, double>::run(200);
    Laws<Aligned<64>, std::string, Aligned<64>>::run(200);
    move_only(50);
    sample("laws for 10 type triples, each with present and absent operands");
    return finish();
}
