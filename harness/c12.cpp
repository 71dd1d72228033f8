// C12: String behaves as std::string, terminator and embedded nulls included.
#include <memory>

#include "efp.hpp"
#include "mon.hpp"

using namespace mon;

template<typename C> struct Name;
template<> struct Name<char> { static const char* get() { return "String"; } };
template<> struct Name<wchar_t> { static const char* get() { return "WString"; } };
template<> struct Name<char16_t> { static const char* get() { return "U16String"; } };
template<> struct Name<char32_t> { static const char* get() { return "U32String"; } };
#if __cplusplus >= 202002L
template<> struct Name<char8_t> { static const char* get() { return "U8String"; } };
#endif

static std::string g_what, g_ops;
static void bad(const char* key, const std::string& d = "") { violation(key, g_what + " after" + g_ops + " " + d); }

template<typename C> static std::string show_s(const std::basic_string<C>& s) {
    std::string o = "\"";
    for (size_t i = 0; i < s.size() && i < 40; ++i) { const unsigned long c = static_cast<unsigned long>(s[i]) & 0x1fffff; o += c >= 32 && c < 127 ? std::string(1, static_cast<char>(c)) : sf("\\x%lx", c); }
    return o + "\"";
}
static int sign(int x) { return x < 0 ? -1 : x > 0; }

// a buffer of exactly the given length on the heap
template<typename C> struct Buf {
    std::unique_ptr<C[]> p;
    size_t n;
    Buf(const std::basic_string<C>& s, bool terminated) : p(new C[s.size() + terminated]), n(s.size()) {
        for (size_t i = 0; i < n; ++i) p[i] = s[i];
        if (terminated) p[n] = C();
    }
};

template<typename C>
struct Hist {
    typedef std::basic_string<C> M;
    typedef efp::BasicString<C> S;
    typedef efp::BasicStringView<C> V;
    enum { N = 3 };
    Slot<S> s[N];
    M m[N];
    Rng r;
    size_t big;   // counts up to this one also occur
    explicit Hist(uint64_t seed) : r(seed), big(0) {
        if (r.chance(3)) big = 3000;
        else if (!slow() && r.below(600) == 0) big = 140000;
    }
    size_t cnt(size_t top) { return big && r.chance(15) ? r.below(big) : r.below(top); }

    C ch(bool nul) {
        const unsigned k = static_cast<unsigned>(r.below(10));
        if (k == 0 && nul) return C();
        if (k == 1) return static_cast<C>(-1);
        if (k == 2) return static_cast<C>(0x80);
        if (k == 3 && sizeof(C) > 1) return static_cast<C>(0x100 + r.below(3));
        return static_cast<C>('a' + r.below(4));
    }
    M text(bool nul, size_t top = 12) {
        M t;
        for (size_t n = r.chance(5) ? r.below(200) : cnt(top); n > 0; --n) t.push_back(ch(nul));
        return t;
    }
    unsigned char fill() { return static_cast<unsigned char>(r.next()); }

    void check(size_t i, const char* op) {
        const S& a = *s[i];
        count("states checked");
        if (a.size() != m[i].size() || a.empty() != m[i].empty()) { bad((std::string("size:") + op).c_str(), sf("size %zu expected %zu", a.size(), m[i].size())); return; }
        if (efp::length(a) != m[i].size() || static_cast<size_t>(a.end() - a.begin()) != m[i].size()) bad((std::string("length:") + op).c_str());
        for (size_t k = 0; k < m[i].size(); ++k)
            if (a[k] != m[i][k] || a.at(k) != m[i][k] || efp::nth(k, a) != m[i][k]) { bad((std::string("content:") + op).c_str(), sf("character %zu, expected ", k) + show_s(m[i])); return; }
        if (a.size() && (a.front() != m[i].front() || a.back() != m[i].back())) bad((std::string("ends:") + op).c_str());
        if (a.capacity() < a.size()) bad((std::string("capacity:") + op).c_str());
    }
    void check_c_str(size_t i) {
        const S& a = *s[i];
        const C* p = a.c_str();
        count("c_str calls");
        if (p == nullptr) { bad("c_str:null"); return; }
        for (size_t k = 0; k < m[i].size(); ++k) if (p[k] != m[i][k]) { bad("c_str:content", sf("character %zu", k)); return; }
        if (p[m[i].size()] != C()) bad("c_str:terminator");
        if (a.size() && p != a.data()) bad("c_str:foreign", "c_str does not return the string's own memory");
        if (a.size() && a.capacity() < a.size() + 1) bad("c_str:terminator-outside");
        check(i, "c_str");
        if (a.c_str() != p) bad("c_str:unstable");
    }

    void fresh(size_t i) {
        switch (r.below(10)) {
            case 7: { g_ops += " from-Array"; efp::Array<C, 3> t; m[i].clear(); for (size_t k = 0; k < 3; ++k) { t[k] = ch(true); m[i].push_back(t[k]); } s[i].adopt(new (s[i].fresh(fill())) S(t)); break; }
            case 8: { g_ops += " from-ArrVec"; efp::ArrVec<C, 5> t; m[i].clear(); for (size_t k = r.below(6); k > 0; --k) { t.push_back(ch(true)); m[i].push_back(t[t.size() - 1]); } s[i].adopt(new (s[i].fresh(fill())) S(t)); break; }
            case 0: g_ops += " default"; s[i].adopt(new (s[i].fresh(fill())) S()); m[i].clear(); break;
            case 1: { g_ops += " from-c_str"; const M t = text(false); Buf<C> b(t, true); s[i].make(fill(), static_cast<const C*>(b.p.get())); m[i] = t; break; }
            case 2: { g_ops += " from-pointer-count"; const M t = text(true); Buf<C> b(t, false); s[i].make(fill(), static_cast<const C*>(b.p.get()), t.size()); m[i] = t; break; }
            case 3: { const size_t n = cnt(9); const C c = ch(true); g_ops += " fill"; s[i].make(fill(), n, c); m[i] = M(n, c); break; }
            case 4: { g_ops += " from-range"; const M t = text(true); Buf<C> b(t, false); s[i].make(fill(), b.p.get(), b.p.get() + t.size()); m[i] = t; break; }
            case 5: { g_ops += " from-std-range"; const M t = text(true); s[i].make(fill(), t.begin(), t.end()); m[i] = t; break; }
            case 6: { g_ops += " from-list"; s[i].adopt(new (s[i].fresh(fill())) S{static_cast<C>('q'), C(), static_cast<C>('r')}); m[i] = M(3, C()); m[i][0] = static_cast<C>('q'); m[i][2] = static_cast<C>('r'); break; }
            default: { const size_t j = r.below(N); if (j == i || !s[j].live()) { s[i].adopt(new (s[i].fresh(fill())) S()); m[i].clear(); } else { g_ops += " copy-construct"; s[i].make(fill(), static_cast<const S&>(*s[j])); m[i] = m[j]; } break; }
        }
        check(i, "construct");
    }

    void rejects(size_t i, const char* what, const std::function<void()>& f) {
        g_ops += std::string(" !") + what;
        count("rejections probed");
        if (!throws<efp::RuntimeError>(f)) bad((std::string("not-rejected:") + what).c_str());
        check(i, what);
    }

    // the text handed in is the string's own, which may move or be overwritten
    void own(size_t i) {
        S& a = *s[i];
        const C* p = a.c_str();
        const size_t k = r.below(a.size() + 1), at = r.below(a.size() + 1);
        const M t = m[i].c_str() + k;   // up to the first null
        if (r.chance(40)) { a.shrink_to_fit(); p = a.c_str(); }
        count("operations with the string's own text");
        switch (r.below(4)) {
            case 0: g_ops += " append-own"; a.append(p + k); m[i].append(t); break;
            case 1: g_ops += " assign-own"; a.assign(p + k); m[i] = t; break;
            case 2: g_ops += " insert-own"; a.insert(at, p + k); m[i].insert(at, t); break;
            default: { const size_t n = r.below(m[i].size() - k + 1); const M u = m[i].substr(k, n); g_ops += " insert-own-count"; a.insert(at, p + k, n); m[i].insert(at, u); break; }
        }
    }

    // lengths no string can have: refused, and nothing has changed
    void huge(size_t i) {
        S& a = *s[i];
        const size_t top = a.max_size();
        const size_t n = top == M::npos ? top : r.chance(40) ? M::npos - r.below(3) : top + r.below(3);   // never asks the operating system
        const C c = ch(false);
        const C* before = a.data();
        bool refused = false;
        const unsigned op = static_cast<unsigned>(r.below(5));
        g_ops += sf(" huge:%u", op);
        count("impossible lengths");
        try {
            switch (op) {
                case 0: a.resize(n); break;
                case 1: a.append(n, c); break;
                case 2: a.assign(n, c); break;
                case 3: { const S q(n, c); (void)q; break; }
                default: if (n > top) a.reserve(n); else a.resize(n); break;
            }
        } catch (const std::exception&) { refused = true; }
        catch (const efp::RuntimeError&) { refused = true; }
        if (!refused) bad("not-rejected:huge", sf("operation %u, length %zu", op, n));
        if (a.data() != before) bad("huge:moved");
        check(i, "huge");
    }

    void step() {
        const size_t i = r.below(N), j = r.below(N);
        S& a = *s[i];
        S& b = *s[j];
        switch (r.below(35)) {
            case 33: { const C c = ch(true); g_ops += " emplace_back"; a.emplace_back(c); m[i].push_back(c); break; }
            case 0: { const C c = ch(true); g_ops += " push_back"; a.push_back(c); m[i].push_back(c); break; }
            case 1: if (a.size()) { g_ops += " pop_back"; a.pop_back(); m[i].pop_back(); } else rejects(i, "pop_back", [&] { a.pop_back(); }); break;
            case 2: { const M t = text(false); Buf<C> x(t, true); g_ops += " append"; S& q = a.append(x.p.get()); m[i].append(t); if (&q != &a) bad("returns:append"); break; }
            case 3: { const size_t n = cnt(8); const C c = ch(true); g_ops += " append-fill"; S& q = a.append(n, c); m[i].append(n, c); if (&q != &a) bad("returns:append"); break; }
            case 4: { g_ops += i == j ? " +=self" : " +="; S& q = a += b; m[i] += M(m[j]); if (&q != &a) bad("returns:+="); break; }
            case 5: { const M t = text(false); Buf<C> x(t, true); g_ops += " assign"; a.assign(x.p.get()); m[i] = t; break; }
            case 6: { const size_t n = cnt(8); const C c = ch(true); g_ops += " assign-fill"; a.assign(n, c); m[i].assign(n, c); break; }
            case 7: case 8: { const M t = text(false); Buf<C> x(t, true); const size_t p = r.below(a.size() + 1); g_ops += " insert"; S& q = a.insert(p, x.p.get()); m[i].insert(p, t); if (&q != &a) bad("returns:insert"); break; }
            case 9: { const M t = text(true); Buf<C> x(t, false); const size_t p = r.below(a.size() + 1); g_ops += " insert-count"; a.insert(p, x.p.get(), t.size()); m[i].insert(p, t); break; }
            case 10: if (a.size()) { const size_t p = r.below(a.size()); g_ops += " erase"; a.erase(p); m[i].erase(p, 1); } else rejects(i, "erase", [&] { a.erase(0); }); break;
            case 11: { const size_t n = r.chance(50) ? cnt(20) : r.below(a.size() + 1); g_ops += " resize"; a.resize(n); m[i].resize(n); break; }
            case 12: { const size_t n = cnt(40); g_ops += " reserve"; a.reserve(n); if (a.capacity() < n) bad("capacity:reserve"); break; }
            case 13: g_ops += " shrink_to_fit"; a.shrink_to_fit(); break;
            case 14: g_ops += " clear"; a.clear(); m[i].clear(); break;
            case 15: g_ops += i == j ? " self-assign" : " copy-assign"; a = static_cast<const S&>(b); m[i] = M(m[j]); break;
            case 16: if (i != j) { g_ops += " move-assign"; a = std::move(b); m[i] = m[j]; m[j] = M(); check(i, "move-assign"); s[j].kill(); fresh(j); } break;
            case 17: if (i != j) { g_ops += " move-construct"; const M t = m[j]; s[i].make(fill(), std::move(b)); m[i] = t; check(i, "move-construct"); s[j].kill(); m[j] = M(); fresh(j); } break;
            case 18: if (a.size()) { const size_t p = r.below(a.size()); const C c = ch(true); g_ops += " write"; a[p] = c; m[i][p] = c; } break;
            case 19: fresh(i); break;
            case 20: case 21: {
                const size_t p = r.below(a.size() + 1), n = r.chance(30) ? M::npos : r.below(a.size() + 3);
                g_ops += " substr";
                const S q = static_cast<const S&>(a).substr(p, n);
                const M w = m[i].substr(p, n);
                bool ok = q.size() == w.size();
                for (size_t k = 0; ok && k < w.size(); ++k) ok = q[k] == w[k];
                if (!ok) bad("result:substr", sf("(%zu, %zu) of ", p, n) + show_s(m[i]));
                const C* z = q.c_str();
                if (z[w.size()] != C()) bad("c_str:substr");
                if (S(a.substr()).size() != m[i].size() || a.substr(p).size() != m[i].size() - p) bad("result:substr-default");
                break;
            }
            case 22: {
                const size_t p = r.below(a.size() + 1), n = r.below(a.size() + 4);
                const size_t w = std::min(n, a.size() - p);
                g_ops += " copy";
                std::unique_ptr<C[]> d(new C[w]);
                const size_t k = static_cast<const S&>(a).copy(d.get(), n, p);
                if (k != w) bad("result:copy", sf("returned %zu", k));
                for (size_t q = 0; q < w; ++q) if (d[q] != m[i][p + q]) { bad("result:copy", "content"); break; }
                break;
            }
            case 23: case 24: {
                g_ops += " compare";
                const S& ca = a; const S& cb = b;
                if (sign(ca.compare(cb)) != sign(m[i].compare(m[j]))) bad("result:compare", show_s(m[i]) + " with " + show_s(m[j]));
                const size_t p = r.below(a.size() + 1), n = r.chance(20) ? M::npos : r.below(a.size() + 3);
                if (sign(ca.compare(p, n, cb)) != sign(m[i].compare(p, n, m[j]))) bad("result:compare-part", sf("(%zu, %zu) ", p, n) + show_s(m[i]) + " with " + show_s(m[j]));
                const S same(ca);
                if (ca.compare(same) != 0 || !(ca == same)) bad("result:compare-copy");
                break;
            }
            case 25: {
                g_ops += " ==";
                const S& ca = a; const S& cb = b;
                if ((ca == cb) != (m[i] == m[j])) bad("result:==", show_s(m[i]) + " and " + show_s(m[j]));
                // one character changed, added or removed
                M t = m[i];
                if (t.size() && r.chance(50)) t[r.below(t.size())] = ch(true); else if (r.chance(50)) t.push_back(C()); else if (t.size()) t.resize(t.size() - 1);
                Buf<C> x(t, false);
                const S other(x.p.get(), t.size());
                if ((ca == other) != (m[i] == t) || (other == ca) != (m[i] == t)) bad("result:==", show_s(m[i]) + " and " + show_s(t));
                Buf<C> z(t, true);   // up to its first null
                if ((ca == static_cast<const C*>(z.p.get())) != (m[i] == M(z.p.get()))) bad("result:==c_str", show_s(m[i]) + " and " + show_s(t));
                break;
            }
            case 26: case 27: views(i); break;
            case 28: {
                const size_t far = r.chance(30) ? M::npos : a.size() + 1 + r.below(3);
                const S& ca = a;
                switch (r.below(7)) {
                    case 0: rejects(i, "at", [&] { (void)ca.at(far == M::npos ? far : far - 1); }); break;
                    case 1: rejects(i, "substr", [&] { (void)ca.substr(far, 1); }); break;
                    case 2: { const M t = text(false); Buf<C> x(t, true); rejects(i, "insert", [&] { a.insert(far, x.p.get()); }); break; }
                    case 3: { const M t = text(true); Buf<C> x(t, false); rejects(i, "insert-count", [&] { a.insert(far, x.p.get(), t.size()); }); break; }
                    case 4: rejects(i, "copy", [&] { C d[4]; (void)ca.copy(d, 4, far); }); break;
                    case 5: rejects(i, "compare", [&] { (void)ca.compare(far, 1, b); }); break;
                    default: rejects(i, "erase", [&] { a.erase(far == M::npos ? far : far - 1); }); break;
                }
                break;
            }
            case 29: { g_ops += " efp::append"; const auto q = efp::append(a, b); const M w = m[i] + m[j]; bool ok = q.size() == w.size(); for (size_t k = 0; ok && k < w.size(); ++k) ok = q[k] == w[k]; if (!ok) bad("result:efp::append"); if (q.c_str()[w.size()] != C()) bad("c_str:efp::append"); break; }
            case 30: case 31: own(i); break;
            case 32: huge(i); break;
            default: check_c_str(i); break;
        }
        check(i, "operation");
        check(j, "operation on another");
        if (r.chance(25)) check_c_str(i);
    }

    template<typename D> void to_std(const efp::BasicString<D>&, const std::basic_string<D>&) {}
#ifndef MON_FREESTANDING
    void to_std(const efp::String& a, const std::string& w) {
        const std::string q = a;
        if (q != w) bad("result:to-std-string", show_s(w));
        const efp::StringView v = a;
        const std::string p = v;
        if (p != w) bad("result:view-to-std-string", show_s(w));
        count("conversions to std::string");
    }
#endif

    void views(size_t i) {
        g_ops += " views";
        const S& a = *s[i];
        const V v = a;
        if (v.size() != m[i].size() || (v.size() && v.data() != a.data())) bad("view:from-string");
        to_std(a, m[i]);
        M t = m[i];
        if (r.chance(50)) { if (t.size() && r.chance(50)) t[r.below(t.size())] = ch(true); else if (r.chance(50)) t.push_back(C()); else if (t.size()) t.resize(t.size() - 1); }
        Buf<C> x(t, false);
        const V w(x.p.get(), t.size());
        if (w.size() != t.size() || w.data() != x.p.get()) bad("view:from-pointer");
        for (size_t k = 0; k < t.size(); ++k) if (w[k] != t[k]) { bad("view:content"); break; }
        if ((v == w) != (m[i] == t) || (w == v) != (m[i] == t)) bad("view:==", show_s(m[i]) + " and " + show_s(t));
        const M u = text(false);
        Buf<C> z(u, true);
        const V c(z.p.get());
        if (c.size() != u.size() || (u.size() && c.data() != z.p.get())) bad("view:from-c_str");
        if ((v == static_cast<const C*>(z.p.get())) != (m[i] == u)) bad("view:==c_str");
        Buf<C> y(t, true);
        if ((v == static_cast<const C*>(y.p.get())) != (m[i] == M(y.p.get()))) bad("view:==c_str");
        V q(c);
        q = v;
        if (!(q == v) || q.size() != m[i].size()) bad("view:copy");
        const size_t k = r.below(t.size() + 2);
        const auto tk = efp::take(k, w);
        if (efp::length(tk) != std::min(k, t.size())) bad("view:take");
        const V empty1, empty2(x.p.get(), 0);
        if (!(empty1 == empty2)) bad("view:==", "two empty views");
        count("views checked");
    }

    void run() {
        for (size_t i = 0; i < N; ++i) fresh(i);
        for (size_t n = 5 + r.below(60); n > 0; --n) { step(); st().pulse++; }
        for (size_t i = 0; i < N; ++i) if (m[i].size() > 255) { count(m[i].size() > 65535 ? "strings longer than 65535" : "strings longer than 255"); }
        for (size_t i = 0; i < N; ++i) { check_c_str(i); check(i, "end"); }
    }
};

template<typename C>
static void histories(size_t n) {
    if (!wanted(Name<C>::get())) return;
    for (size_t t = 0; t < scaled(n); ++t) {
        g_what = sf("%s history %zu", Name<C>::get(), t);
        begin_case(g_what);
        std::string().swap(g_ops);
        HeapScope heap;
        guarded("history", [&] { Hist<C> h(mix(st().seed * 89 + t, sizeof(C) + std::hash<std::string>()(Name<C>::get()))); h.run(); });
        seen(std::hash<std::string>()(g_ops + Name<C>::get()));
        if (t == 0) sample(g_what + g_ops);
        std::string().swap(g_ops);
        heap.stop();
        heap.expect_balanced("history");
    }
    count(std::string("histories of ") + Name<C>::get(), scaled(n));
}

int main(int argc, char** argv) {
    init(argc, argv);
    heap_install();
    histories<char>(300);
    histories<wchar_t>(150);
    histories<char16_t>(150);
    histories<char32_t>(150);
#if __cplusplus >= 202002L
    histories<char8_t>(150);
#endif
    return finish();
}
