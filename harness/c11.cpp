// C11: sorting yields a sorted permutation, stable where promised, at every size.
#include <algorithm>

#include "efp.hpp"
#include "mon.hpp"

using namespace mon;

enum { ID = 100000 };   // value = key * ID + position: equivalent elements stay distinguishable

typedef std::vector<int> Model;
static std::string g_what;

// a user template over a std type: its associated namespaces include std
template<typename T> struct Boxed { T v; };
namespace mon {
template<> struct Val<Boxed<std::string>> {
    static Boxed<std::string> make(int x) { Boxed<std::string> b = {Val<std::string>::make(x)}; return b; }
    static int get(const Boxed<std::string>& b) { return Val<std::string>::get(b.v); }
    static const char* name() { return "Boxed<std::string>"; }
};
}

// ---------------------------------------------------------------- comparison monitor
struct Order { int kind; };
// strict weak orders over keys
static bool before(int kind, int a, int b) {
    switch (kind) {
        case 0: return a < b;
        case 1: return a > b;
        case 2: return a % 7 < b % 7;
        case 3: return false;                       // everything is equivalent
        case 4: return a / 5 < b / 5;
        case 5: return (a % 2 != b % 2) ? a % 2 < b % 2 : a < b;
        default: return (a ^ 5) < (b ^ 5);
    }
}
static const char* order_name(int k) { static const char* n[] = {"less", "greater", "mod7", "none", "div5", "even-first", "xor"}; return n[k]; }

struct Watch {
    static std::vector<unsigned char>& present() { static std::vector<unsigned char> p; return p; }  // by id
    static const std::vector<int>*& values() { static const std::vector<int>* v = nullptr; return v; }
    static uint64_t& calls() { static uint64_t c = 0; return c; }
    static uintptr_t& lowest() { static uintptr_t p = 0; return p; }
};

template<typename A> struct Cmp {
    int kind;
    __attribute__((noinline)) bool operator()(const A& a, const A& b) const {
        ++Watch::calls();
        const uintptr_t here = reinterpret_cast<uintptr_t>(__builtin_frame_address(0));
        if (here < Watch::lowest()) Watch::lowest() = here;
        const int x = Val<A>::get(a), y = Val<A>::get(b);
        check(x); check(y);
        return before(kind, x / ID, y / ID);
    }
    static void check(int v) {
        const std::vector<int>& all = *Watch::values();
        const int id = v % ID;
        if (v < 0 || static_cast<size_t>(id) >= all.size() || all[static_cast<size_t>(id)] != v)
            violation("compared-foreign", g_what + sf(" the comparison was given %d, which is no element of the vector", v));
    }
};

// ---------------------------------------------------------------- shapes
enum { SHAPES = 15 };
static Model shape(int s, size_t n, Rng& r) {
    Model k(n);
    for (size_t i = 0; i < n; ++i) {
        const int x = static_cast<int>(i), m = static_cast<int>(n);
        switch (s) {
            case 0: k[i] = static_cast<int>(r.below(10000)); break;
            case 1: k[i] = x; break;
            case 2: k[i] = m - x; break;
            case 3: k[i] = 7; break;
            case 4: k[i] = static_cast<int>(r.below(2)); break;
            case 5: k[i] = static_cast<int>(r.below(5)); break;
            case 6: k[i] = x < m / 2 ? x : m - x; break;
            case 7: k[i] = x % 31; break;
            case 8: k[i] = x % 32; break;
            case 9: k[i] = x % 33; break;
            case 10: k[i] = (x / 32) % 2 ? x : m - x; break;
            case 11: k[i] = x + 1 == m ? 0 : x + 1; break;      // smallest last
            case 12: k[i] = x == 0 ? m : x; break;              // largest first
            case 13: k[i] = 32 - (x / 32) + static_cast<int>(r.below(3)); break;  // decreasing runs
            default: k[i] = x; break;
        }
        if (k[i] < 0) k[i] = 0;
        if (k[i] > 20000) k[i] %= 20000;
    }
    if (s == 14) for (int t = 0; t < 3 && n > 1; ++t) std::swap(k[r.below(n)], k[r.below(n)]);  // nearly sorted
    return k;
}

struct Algo { const char* name; bool stable; };
enum { A_SORT_BY, A_TIMSORT_BY, A_INSERTION_BY, A_UNSTABLE_BY, A_INTRO_BY, A_HEAP_BY, A_QUICK_BY, A_MERGE_BY, NALGO };
static const Algo algos[] = {{"sort_by", true}, {"timsort_by", true}, {"insertion_sort_by", true}, {"sort_unstable_by", false}, {"size_trosort_by", false}, {"heapsort_by", false}, {"quicksort_by", false}, {"merge_sort_by", false}};

template<typename A, typename F>
static void run(int a, efp::Vector<A>& v, const F& f) {
    switch (a) {
        case A_SORT_BY: efp::sort_by(v, f); break;
        case A_TIMSORT_BY: efp::timsort_by(v, f); break;
        case A_INSERTION_BY: efp::insertion_sort_by(v, f); break;
        case A_UNSTABLE_BY: efp::sort_unstable_by(v, f); break;
        case A_INTRO_BY: efp::size_trosort_by(v, f); break;
        case A_HEAP_BY: efp::heapsort_by(v, f); break;
        case A_QUICK_BY: if (v.size()) efp::quicksort_by(v, 0, v.size() - 1, f); break;
        default: if (v.size()) efp::merge_sort_by(v, 0, v.size() - 1, f); break;
    }
}

static size_t log2of(size_t n) { size_t k = 0; while (n) { n /= 2; ++k; } return k; }

template<typename A>
static void judge(const efp::Vector<A>& v, const Model& all, int kind, bool stable, const char* name) {
    Model got;
    for (size_t i = 0; i < v.size(); ++i) got.push_back(Val<A>::get(v[i]));
    count("vectors judged");
    count("elements judged", got.size());
    Model a = got, b = all;
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    if (a != b) { violation(std::string("permutation:") + name, g_what + " gives " + show(got)); return; }
    for (size_t i = 1; i < got.size(); ++i) {
        const int x = got[i - 1] / ID, y = got[i] / ID;
        if (before(kind, y, x)) { violation(std::string("order:") + name, g_what + sf(" positions %zu and %zu are out of order: %d before %d", i - 1, i, x, y)); return; }
        if (stable && !before(kind, x, y) && got[i - 1] % ID > got[i] % ID) { violation(std::string("stability:") + name, g_what + sf(" equivalent elements %d and %d were exchanged", got[i - 1] % ID, got[i] % ID)); return; }
    }
}

template<typename A>
static efp::Vector<A> build(const Model& all, Rng& r) {
    efp::Vector<A> v;
    if (r.chance(50)) v.reserve(all.size());
    for (int x : all) v.push_back(Val<A>::make(x));
    if (r.chance(30)) v.shrink_to_fit();
    return v;
}

template<typename A>
static void one(int a, int s, size_t n, int kind, Rng& r) {
    const Model keys = shape(s, n, r);
    Model all(n);
    for (size_t i = 0; i < n; ++i) all[i] = keys[i] * ID + static_cast<int>(i);
    g_what = sf("%s of %zu %s, shape %d, order %s", algos[a].name, n, Val<A>::name(), s, order_name(kind));
    begin_case(g_what);
    HeapScope heap;
    {
        efp::Vector<A> v = build<A>(all, r);
        const size_t alive = Registry::get().size();
        Watch::values() = &all;
        Watch::calls() = 0;
        const uintptr_t here = reinterpret_cast<uintptr_t>(__builtin_frame_address(0));
        Watch::lowest() = here;
        Cmp<A> f = {kind};
        run(a, v, f);
        if (Registry::get().size() != alive) violation(std::string("lifetime:") + algos[a].name, g_what + sf(" %zu elements alive before, %zu after", alive, Registry::get().size()));
        count("comparisons observed", Watch::calls());
        const size_t depth = here - Watch::lowest(), limit = 4096 * (log2of(n) + 4);
        if (depth > limit) violation(std::string("stack:") + algos[a].name, g_what + sf(" used %zu bytes of stack", depth));
        judge(v, all, kind, algos[a].stable, algos[a].name);
        if (n < 3) count("vectors of length 0 to 2");
    }
    heap.stop();
    heap.expect_balanced(g_what.c_str());
    expect_no_live(g_what.c_str());
    uint64_t h = mix(static_cast<uint64_t>(a * 100 + s), mix(n, static_cast<uint64_t>(kind)));
    for (size_t i = 0; i < n && i < 64; ++i) h = mix(h, static_cast<uint64_t>(keys[i]));
    seen(h);
}

// the forms with the built-in comparison
template<typename A, typename F>
static void plain(const char* name, bool stable, const Model& vals, Rng& r, const F& f) {
    g_what = sf("%s of %zu %s ", name, vals.size(), Val<A>::name()) + show(vals);
    begin_case(g_what);
    (void)stable;
    HeapScope heap;
    {
        efp::Vector<A> v = build<A>(vals, r);
        f(v);
        std::vector<A> want;
        for (int x : vals) want.push_back(Val<A>::make(x));
        std::stable_sort(want.begin(), want.end());
        bool ok = v.size() == want.size();
        for (size_t i = 0; ok && i < want.size(); ++i) ok = v[i] == want[i];
        count("vectors judged");
        if (!ok) violation(std::string("order:") + name, g_what);
    }
    heap.stop();
    heap.expect_balanced(g_what.c_str());
    expect_no_live(g_what.c_str());
    seen(std::hash<std::string>()(g_what));
}
template<typename A>
static void plain_all(size_t trials) {
    for (size_t t = 0; t < scaled(trials); ++t) {
        Rng r(st().seed * 71 + t);
        Model vals(t < 130 ? t : r.below(400));
        const int span = r.chance(50) ? 5 : 120;
        for (int& v : vals) v = r.range(1, span);
        if (r.chance(15)) std::sort(vals.begin(), vals.end());
        if (r.chance(15)) std::sort(vals.rbegin(), vals.rend());
        plain<A>("sort", true, vals, r, [](efp::Vector<A>& v) { efp::sort(v); });
        plain<A>("sort_unstable", false, vals, r, [](efp::Vector<A>& v) { efp::sort_unstable(v); });
        plain<A>("quicksort", false, vals, r, [](efp::Vector<A>& v) { efp::quicksort(v); });
        plain<A>("heapsort", false, vals, r, [](efp::Vector<A>& v) { efp::heapsort(v); });
        plain<A>("insertion_sort", true, vals, r, [](efp::Vector<A>& v) { efp::insertion_sort(v); });
        plain<A>("size_trosort", false, vals, r, [](efp::Vector<A>& v) { efp::size_trosort(v); });
        plain<A>("timsort", true, vals, r, [](efp::Vector<A>& v) { efp::timsort(v); });
    }
}

// The natural order of this type looks at the key only, so that sort and timsort must be stable.
struct Keyed {
    int v;
    Keyed() : v(0) {}
    explicit Keyed(int x) : v(x) {}
    bool operator<(const Keyed& o) const { return v / ID < o.v / ID; }
};
static void stable_natural(size_t trials) {
    for (size_t t = 0; t < scaled(trials); ++t) {
        Rng r(st().seed * 73 + t);
        const size_t n = t < 100 ? t : r.below(600);
        const Model keys = shape(static_cast<int>(r.below(SHAPES)), n, r);
        for (int a = 0; a < 3; ++a) {
            static const char* names[] = {"sort", "timsort", "insertion_sort"};
            g_what = sf("%s of %zu keyed elements", names[a], n);
            begin_case(g_what);
            efp::Vector<Keyed> v;
            for (size_t i = 0; i < n; ++i) v.push_back(Keyed(keys[i] * ID + static_cast<int>(i)));
            if (a == 0) efp::sort(v); else if (a == 1) efp::timsort(v); else efp::insertion_sort(v);
            for (size_t i = 1; i < v.size(); ++i)
                if (v[i] < v[i - 1] || (!(v[i - 1] < v[i]) && v[i - 1].v > v[i].v)) { violation(std::string("stability:") + names[a], g_what + sf(" at position %zu", i)); break; }
        }
        seen(mix(n, static_cast<uint64_t>(t)));
    }
}

// the forms that sort a range leave the rest alone
static void ranges(size_t trials) {
    for (size_t t = 0; t < scaled(trials); ++t) {
        Rng r(st().seed * 79 + t);
        const size_t n = 1 + r.below(90), lo = r.below(n), hi = lo + r.below(n - lo);
        Model all(n);
        for (size_t i = 0; i < n; ++i) all[i] = static_cast<int>(r.below(9)) * ID + static_cast<int>(i);
        for (int a = 0; a < 2; ++a) {
            g_what = sf("%s of [%zu, %zu] of %zu", a ? "merge_sort_by" : "quicksort_by", lo, hi, n);
            begin_case(g_what);
            {
                efp::Vector<Tracked> v = build<Tracked>(all, r);
                Watch::values() = &all;
                Watch::lowest() = reinterpret_cast<uintptr_t>(__builtin_frame_address(0));
                Cmp<Tracked> f = {0};
                if (a) efp::merge_sort_by(v, lo, hi, f); else efp::quicksort_by(v, lo, hi, f);
                Model got; for (size_t i = 0; i < v.size(); ++i) got.push_back(v[i].get());
                Model want = all;
                const auto lt = [](int x, int y) { return x / ID < y / ID; };
                bool ok = got.size() == n && std::is_sorted(got.begin() + static_cast<long>(lo), got.begin() + static_cast<long>(hi) + 1, lt);
                for (size_t i = 0; ok && i < n; ++i) if (i < lo || i > hi) ok = got[i] == all[i];
                Model x = got, y = want; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
                if (!ok || x != y) violation(a ? "range:merge_sort_by" : "range:quicksort_by", g_what + " gives " + show(got));
            }
            expect_no_live(g_what.c_str());
            seen(mix(mix(n, lo), mix(hi, static_cast<uint64_t>(t))));
        }
    }
}

int main(int argc, char** argv) {
    init(argc, argv);
    heap_install();
    Rng r(st().seed * 83);
    // every length, every algorithm
    for (size_t n = 0; n <= 140; ++n)
        for (int a = 0; a < NALGO; ++a)
            for (size_t k = 0; k < scaled(2); ++k) {
                one<int>(a, static_cast<int>(r.below(SHAPES)), n, static_cast<int>(r.below(7)), r);
                if (k % 3 == 0) one<Tracked>(a, static_cast<int>(r.below(SHAPES)), n, static_cast<int>(r.below(7)), r);
            }
    // every shape and order around the run boundaries
    for (size_t n : {2, 3, 31, 32, 33, 63, 64, 65, 66, 95, 96, 97, 127, 128, 129, 160, 191, 193, 255, 257})
        for (int s = 0; s < SHAPES; ++s)
            for (int a = 0; a < NALGO; ++a) one<int>(a, s, n, static_cast<int>(scaled(1) > 1 ? r.below(7) : 0), r);
    for (size_t t = 0; t < scaled(40); ++t) {
        const int a = static_cast<int>(r.below(NALGO)), s = static_cast<int>(r.below(SHAPES)), kind = static_cast<int>(r.below(7));
        one<Tracked>(a, s, r.below(700), kind, r);
        one<CopyOnly>(a, s, r.below(300), kind, r);
        one<std::string>(a, s, r.below(300), kind, r);
        if (t % 2) one<Boxed<std::string>>(a, s, r.below(200), kind, r);
    }
    // large and adversarial
    if (st().scale > 0.3)
        for (int a = 0; a < NALGO; ++a)
            for (int s : {0, 1, 2, 3, 6, 11}) one<int>(a, s, a == A_HEAP_BY || a == A_MERGE_BY ? 20000 : 3000, 0, r);
    plain_all<int>(150); plain_all<double>(40); plain_all<uint8_t>(40); plain_all<Tracked>(40); plain_all<std::string>(30);
    stable_natural(120);
    ranges(150);
    sample(g_what);
    return finish();
}
