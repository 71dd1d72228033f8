// C03: Vcb is a sliding window, Vcq a bounded FIFO; contiguous; exact lifetimes.
#include <deque>

#include "efp.hpp"
#include "mon.hpp"

using namespace mon;

typedef std::vector<int> Model;

template<typename A, size_t n>
struct Win {  // Vcb
    typedef efp::Vcb<A, n> C;
    static const bool queue = false;
    static std::string name() { return std::string("Vcb<") + Val<A>::name() + "," + std::to_string(n) + ">"; }
    static Model initial() { return Model(n, Val<A>::fresh()); }
    static void push(Model& m, int v) { m.erase(m.begin()); m.push_back(v); }
    static int pop(C&) { return 0; }
    static bool full(const Model&) { return true; }
};

template<typename A, size_t n>
struct Fifo {  // Vcq
    typedef efp::Vcq<A, n> C;
    static const bool queue = true;
    static std::string name() { return std::string("Vcq<") + Val<A>::name() + "," + std::to_string(n) + ">"; }
    static Model initial() { return Model(); }
    static void push(Model& m, int v) { if (m.size() == n) m.erase(m.begin()); m.push_back(v); }
    static int pop(C& c) { return Val<A>::get(c.pop_front()); }
    static bool full(const Model& m) { return m.size() == n; }
};

template<typename A, size_t n, template<typename, size_t> class W>
class Hist {
    typedef W<A, n> T;
    typedef typename T::C C;
    enum { nslots = 3 };

public:
    explicit Hist(Rng& r) : _r(r), _dead(false), _steps(0), _h(0) {}

    void run(size_t ops) {
        {
            HeapScope heap;
            {
                Slot<C> c[nslots];
                Model m[nslots];
                _c = c;
                _m = m;
                for (size_t i = 0; i < nslots; ++i) fresh(i);
                for (size_t k = 0; k < ops && !_dead; ++k) {
                    step();
                    if (!_dead) for (size_t i = 0; i < nslots && !_dead; ++i) check(i);
                }
                _c = nullptr;
                _m = nullptr;
            }
            std::string().swap(_log);
            heap.stop();
            if (Registry::get().size() == 0 && !_dead) heap.expect_balanced(T::name().c_str());
        }
        expect_no_live(T::name().c_str());
        count("operations", _steps);
        seen(_h);
    }

private:
    Rng& _r;
    bool _dead;
    size_t _steps;
    uint64_t _h;
    std::string _log;
    Slot<C>* _c;
    Model* _m;

    int val() { return _r.range(1, 99); }
    unsigned char junk() { return static_cast<unsigned char>(_r.next()); }

    void note(const std::string& op) {
        ++_steps;
        ++st().pulse;
        _log += op + "; ";
        if (_log.size() > 600) _log.erase(0, _log.size() - 600);
        set_tag(T::name() + " " + _log);
        for (size_t i = 0; i < op.size(); ++i) _h = mix(_h, static_cast<unsigned char>(op[i]));
    }

    void differ(const char* key, const std::string& d) {
        _dead = true;
        violation(std::string(T::queue ? "fifo:" : "window:") + key, T::name() + " " + d + " after: " + _log);
    }

    void fresh(size_t i) {
        note(sf("new(%zu)", i));
        _c[i].kill();
        void* p = _c[i].fresh(junk());
        _c[i].adopt(new (p) C());
        _m[i] = T::initial();
    }

    void check(size_t i) {
        C& c = *_c[i];
        const C& k = c;
        const Model& m = _m[i];
        if (k.size() != m.size()) return differ("size", sf("slot %zu: size %zu, expected %zu", i, static_cast<size_t>(k.size()), m.size()));
        if (static_cast<size_t>(efp::length(k)) != m.size()) return differ("length", "length differs from size");
        if (k.empty() != m.empty()) return differ("empty", "empty() differs");
        if (k.data() != k.begin() || c.data() != c.begin() || k.data() != c.data()) return differ("data", "data, begin differ");
        if (static_cast<size_t>(k.end() - k.begin()) != m.size() || static_cast<size_t>(c.end() - c.begin()) != m.size())
            return differ("end", sf("end - begin is %td for %zu elements", k.end() - k.begin(), m.size()));
        Model got;
        for (size_t j = 0; j < m.size(); ++j) {
            if (&k[j] != k.data() + j || &c[j] != c.data() + j || &efp::nth(j, k) != k.data() + j || efp::data(k) != k.data())
                return differ("contiguity", "an access path does not show data()+i");
            got.push_back(Val<A>::get(k[j]));
        }
        if (got != m) return differ("contents", sf("slot %zu shows ", i) + show(got) + ", expected " + show(m));
        count("states checked");
    }

    void push(size_t i) {
        C& c = *_c[i];
        const int v = val();
        switch (_r.below(4)) {
            case 0: { note(sf("push(%zu)", i)); const A a = Val<A>::make(v); c.push_back(a); T::push(_m[i], v); break; }
            case 1: note(sf("push_rv(%zu)", i)); c.push_back(Val<A>::make(v)); T::push(_m[i], v); break;
            default:
                if (_m[i].empty()) return;
                const size_t k = _r.chance(60) ? 0 : _r.below(_m[i].size());
                note(sf("push_alias(%zu,%zu)", i, k));
                const int w = _m[i][k];
                c.push_back(c[k]);
                T::push(_m[i], w);
        }
    }

    void pop(size_t i, std::true_type) {
        if (_m[i].empty()) return;
        note(sf("pop(%zu)", i));
        const int got = T::pop(*_c[i]);
        if (got != _m[i][0]) return differ("pop", sf("popped %d, expected %d", got, _m[i][0]));
        _m[i].erase(_m[i].begin());
    }
    void pop(size_t, std::false_type) {}

    void step() {
        const size_t i = _r.below(nslots), j = _r.below(nslots);
        switch (_r.below(16)) {
            case 0: case 1: case 2: case 3: push(i); break;
            case 4: case 5: case 6: pop(i, std::integral_constant<bool, T::queue>()); break;
            case 7: { const size_t b = _r.below(2 * n + 2); for (size_t q = 0; q < b; ++q) push(i); break; }
            case 8: { const size_t b = _r.below(n + 1); for (size_t q = 0; q < b && !_dead; ++q) pop(i, std::integral_constant<bool, T::queue>()); break; }
            case 9:
                if (i == j) return;
                note(sf("copy_ctor(%zu<-%zu)", i, j));
                _c[i].make(junk(), static_cast<const C&>(*_c[j]));
                _m[i] = _m[j];
                break;
            case 10: case 11:
                note(sf("copy_assign(%zu<-%zu)", i, j));
                *_c[i] = static_cast<const C&>(*_c[j]);
                _m[i] = _m[j];
                break;
            case 12: case 13:
                if (i == j) {
                    note(sf("move_assign_self(%zu)", i));
                    C& a = *_c[i];
                    C& b = *_c[i];
                    a = std::move(b);
                    return;
                }
                if (_r.chance(50)) { note(sf("move_ctor(%zu<-%zu)", i, j)); _c[i].make(junk(), std::move(*_c[j])); }
                else { note(sf("move_assign(%zu<-%zu)", i, j)); *_c[i] = std::move(*_c[j]); }
                _m[i] = _m[j];
                check(i);
                if (_dead) return;
                if (_r.chance(50)) fresh(j);
                else { note(sf("copy_assign(%zu<-%zu)", j, i)); *_c[j] = static_cast<const C&>(*_c[i]); _m[j] = _m[i]; }
                break;
            case 14: if (_r.chance(30)) fresh(i); break;
            default: {  // write in place, look through the other paths, put the old value back
                if (_m[i].empty()) return;
                const size_t k = _r.below(_m[i].size());
                note(sf("write(%zu,%zu)", i, k));
                C& c = *_c[i];
                const int old = _m[i][k], v = val();
                if (_r.chance(50)) Val<A>::set(c[k], v); else Val<A>::set(efp::nth(k, c), v);
                _m[i][k] = v;
                check(i);
                Val<A>::set(c[k], old);
                _m[i][k] = old;
            }
        }
    }
};

template<typename A, size_t n, template<typename, size_t> class W>
void campaign(size_t histories, uint64_t salt) {
    const std::string name = W<A, n>::name();
    if (!wanted(name)) return;
    for (size_t k = 0; k < scaled(histories); ++k) {
        Rng r(mix(mix(st().seed, salt * 31 + n), k + 1));
        begin_case(name);
        Hist<A, n, W> h(r);
        h.run(5 + r.below(60));
        if (st().violations > 100) break;
    }
}

template<typename A, size_t n> void both(size_t h, uint64_t salt) {
    campaign<A, n, Win>(h, salt);
    campaign<A, n, Fifo>(h, salt + 1);
}

// Every wrap offset, every fill level: copy, move, then continue with all values checked.
template<typename A, size_t n, template<typename, size_t> class W>
void offsets() {
    typedef W<A, n> T;
    typedef typename T::C C;
    for (size_t off = 0; off <= 2 * n; ++off)
        for (size_t fill = 0; fill <= n; ++fill)
            for (int how = 0; how < 6; ++how) {
                begin_case(T::name() + sf(" offset %zu fill %zu how %d", off, fill, how));
                seen(mix(mix(mix(0xabcdef, off * 100 + fill), static_cast<uint64_t>(how) * 1000 + n), T::queue));
                {
                    Slot<C> a, b;
                    a.make(0xa5);
                    Model m = T::initial();
                    int v = 100;
                    for (size_t i = 0; i < off; ++i) { a->push_back(Val<A>::make(++v)); T::push(m, v); if (T::queue) { T::pop(*a); m.erase(m.begin()); } }
                    for (size_t i = 0; i < fill; ++i) { a->push_back(Val<A>::make(++v)); T::push(m, v); }
                    C* c = &*a;
                    switch (how) {
                        case 0: b.make(0x5a, static_cast<const C&>(*a)); c = &*b; break;
                        case 1: b.make(0x5a, std::move(*a)); a.kill(); c = &*b; break;
                        case 2: b.make(0x5a); for (size_t i = 0; i < (off + fill) % (n + 1); ++i) b->push_back(Val<A>::make(7)); *b = static_cast<const C&>(*a); c = &*b; break;
                        case 3: b.make(0x5a); for (size_t i = 0; i < (off * 2 + fill) % (n + 2); ++i) b->push_back(Val<A>::make(7)); *b = std::move(*a); a.kill(); c = &*b; break;
                        case 4: { const C& s = *a; *a = s; break; }
                        default: break;
                    }
                    for (size_t step = 0; step <= 2 * n + 1; ++step) {
                        Model got;
                        for (size_t i = 0; i < c->size(); ++i) got.push_back(Val<A>::get((*c)[i]));
                        count("states checked");
                        if (got != m) {
                            violation(T::queue ? "fifo:contents" : "window:contents", T::name() + " shows " + show(got) + ", expected " + show(m));
                            break;
                        }
                        if (step % 3 == 2 && T::queue && !m.empty()) {
                            const int p = T::pop(*c);
                            if (p != m[0]) { violation("fifo:pop", sf("popped %d expected %d", p, m[0])); break; }
                            m.erase(m.begin());
                        } else {
                            c->push_back(Val<A>::make(++v));
                            T::push(m, v);
                        }
                    }
                }
                expect_no_live(T::name().c_str());
            }
}

// A value written in place belongs to the window until it is pushed out.
template<size_t n> void inplace_vcb() {
    for (size_t off = 0; off < n; ++off)
        for (size_t idx = 0; idx < n; ++idx)
            for (size_t more = 0; more < n; ++more) {
                begin_case(sf("inplace Vcb<int,%zu> offset %zu index %zu then %zu pushes", n, off, idx, more));
                efp::Vcb<int, n> c;
                Model m(n, 0), stale;
                int v = 0;
                for (size_t i = 0; i < n + off; ++i) { c.push_back(++v); m.erase(m.begin()); m.push_back(v); }
                stale = m;
                c[idx] = 1000;
                m[idx] = 1000;
                for (size_t i = 0; i < more; ++i) { c.push_back(++v); m.erase(m.begin()); m.push_back(v); stale.erase(stale.begin()); stale.push_back(v); }
                Model got;
                for (size_t i = 0; i < n; ++i) got.push_back(c[i]);
                count("in-place writes followed");
                if (got == m) continue;
                violation(got == stale ? "inplace-write-lost-at-wrap:Vcb" : "inplace-write:Vcb", "shows " + show(got) + ", expected " + show(m));
            }
}

template<size_t n> void inplace_vcq() {
    for (size_t off = 0; off < n; ++off)
        for (size_t idx = 0; idx < n; ++idx)
            for (size_t pops = 0; pops <= idx; ++pops)
                for (size_t more = 0; more < n && more + n <= n + idx; ++more) {
                    begin_case(sf("inplace Vcq<int,%zu> offset %zu index %zu then %zu pops %zu pushes", n, off, idx, pops, more));
                    efp::Vcq<int, n> c;
                    Model m, stale;
                    int v = 0;
                    for (size_t i = 0; i < n + off; ++i) { c.push_back(++v); if (m.size() == n) m.erase(m.begin()); m.push_back(v); }
                    stale = m;
                    c[idx] = 1000;
                    m[idx] = 1000;
                    for (size_t i = 0; i < pops; ++i) { c.pop_front(); m.erase(m.begin()); stale.erase(stale.begin()); }
                    for (size_t i = 0; i < more; ++i) {
                        c.push_back(++v);
                        if (m.size() == n) { m.erase(m.begin()); stale.erase(stale.begin()); }
                        m.push_back(v);
                        stale.push_back(v);
                    }
                    Model got;
                    for (size_t i = 0; i < c.size(); ++i) got.push_back(c[i]);
                    count("in-place writes followed");
                    if (got == m) continue;
                    violation(got == stale ? "inplace-write-lost-at-wrap:Vcq" : "inplace-write:Vcq", "shows " + show(got) + ", expected " + show(m));
                }
}

int main(int argc, char** argv) {
    mon::init(argc, argv);
    mon::heap_install();
    both<int, 1>(100, 1);
    both<int, 2>(200, 3);
    both<int, 3>(300, 5);
    both<int, 5>(300, 7);
    both<int, 16>(100, 9);
    both<double, 4>(100, 11);
    both<Tracked, 1>(150, 13);
    both<Tracked, 2>(200, 15);
    both<Tracked, 3>(300, 17);
    both<Tracked, 7>(200, 19);
    both<CopyOnly, 4>(150, 21);
    both<std::string, 3>(150, 23);
    both<Odd, 9>(100, 25);
    both<Aligned<32>, 3>(100, 27);
    both<int, 300>(2, 31);         // capacities that do not fit in 8 bits
    both<uint8_t, 513>(1, 33);
    if (wanted("offset")) {
        offsets<int, 1, Win>(); offsets<int, 1, Fifo>();
        offsets<int, 2, Win>(); offsets<int, 2, Fifo>();
        offsets<Tracked, 3, Win>(); offsets<Tracked, 3, Fifo>();
        offsets<std::string, 4, Win>(); offsets<std::string, 4, Fifo>();
        offsets<CopyOnly, 5, Win>(); offsets<CopyOnly, 5, Fifo>();
        offsets<int, 8, Win>(); offsets<int, 8, Fifo>();
    }
    if (wanted("inplace")) {
        inplace_vcb<2>(); inplace_vcb<3>(); inplace_vcb<5>();
        inplace_vcq<2>(); inplace_vcq<3>(); inplace_vcq<5>();
    }
    mon::count("element lifetime events", mon::Life::events());
    mon::sample("last case: " + mon::tag());
    return mon::finish();
}
