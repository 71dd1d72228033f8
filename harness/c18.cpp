// C18: numeric and statistical functions against their definitions, evaluated in quadruple precision with a
// running bound on what rounding in the computation's own precision can do.
#include "seqs.hpp"

#ifndef SLICE
#define SLICE 0
#endif

using namespace mon;
typedef __float128 Q;

static Q qabs(Q x) { return x < 0 ? -x : x; }
static Q qsqrt(Q x) {
    if (x <= 0) return 0;
    Q y = static_cast<Q>(std::sqrt(static_cast<long double>(x)));
    if (y == 0) return 0;
    for (int i = 0; i < 3; ++i) y = (y + x / y) / 2;
    return y;
}

// a value and how far a floating point evaluation may be from it
struct E { Q v, e; };
static Q g_eps;
static E mk(Q v, Q e) { E r; r.v = v; r.e = e; return r; }
static E operator+(E a, E b) { return mk(a.v + b.v, a.e + b.e + g_eps * (qabs(a.v) + qabs(b.v))); }
static E operator-(E a, E b) { return mk(a.v - b.v, a.e + b.e + g_eps * (qabs(a.v) + qabs(b.v))); }
static E operator*(E a, E b) { return mk(a.v * b.v, qabs(a.v) * b.e + qabs(b.v) * a.e + a.e * b.e + g_eps * qabs(a.v * b.v)); }
static bool sane(E a) { return a.e * 4 < qabs(a.v); }
static E operator/(E a, E b) {   // sane(b)
    const Q v = a.v / b.v;
    return mk(v, (a.e + qabs(v) * b.e) / (qabs(b.v) - b.e) + g_eps * qabs(v));
}
static E root(E a) {
    const Q v = qsqrt(a.v);
    return mk(v, v > 0 && a.e < a.v ? a.e / v + g_eps * v : qsqrt(a.e) * 2 + g_eps * v);
}
typedef std::vector<E> Es;
static E total(const Es& x) {
    Q v = 0, e = 0, m = 0;
    for (size_t i = 0; i < x.size(); ++i) { v += x[i].v; e += x[i].e; m += qabs(x[i].v); }
    return mk(v, e + g_eps * static_cast<Q>(x.size()) * m);
}
static E over(E a, size_t n) { return a / mk(static_cast<Q>(n), 0); }
static E average(const Es& x) { return over(total(x), x.size()); }
static Es less(const Es& x, E m) { Es r; for (size_t i = 0; i < x.size(); ++i) r.push_back(x[i] - m); return r; }
static Es times(const Es& x, const Es& y) { Es r; for (size_t i = 0; i < x.size(); ++i) r.push_back(x[i] * y[i]); return r; }
static Es minus(const Es& x, const Es& y) { Es r; for (size_t i = 0; i < x.size(); ++i) r.push_back(x[i] - y[i]); return r; }
static E covar(const Es& x, const Es& y, bool bessel) {
    return over(total(times(less(x, average(x)), less(y, average(y)))), bessel ? x.size() - 1 : x.size());
}

static std::string g_what;
static std::string qs(Q q) { return sf("%.21Lg", static_cast<long double>(q)); }
static void bad(const std::string& f, const std::string& detail) { violation("value:" + f, g_what + " " + f + ": " + detail); }

template<typename R> void judge(const char* f, R got, E want) {
    const Q g = static_cast<Q>(got), slack = want.e * 4 + g_eps * qabs(want.v) * 4 + static_cast<Q>(std::numeric_limits<float>::min());
    count(want.e * 4 > qabs(want.v) / 8 ? "results compared within a loose bound" : "results compared within a tight bound");
    if (!(qabs(g - want.v) <= slack)) bad(f, "returned " + qs(g) + ", defined as " + qs(want.v) + " within " + qs(slack));
}
// no conversion of the result to another type on the way
#define SAME(f, T, expr) do { static_assert(std::is_same<decltype(expr), T>::value, f " has an unexpected type"); } while (0)

// ---------------------------------------------------------------- inputs
template<typename A> struct Num {   // floating
    enum { integral = 0 };
    static A value(int profile, size_t i, size_t n, Rng& r, const double* par) {
        const double u = static_cast<double>(r.below(2000001)) / 1e6 - 1;
        switch (profile) {
            case 0: return static_cast<A>(static_cast<int>(r.below(19)) - 9);
            case 1: return static_cast<A>(u);
            case 2: return static_cast<A>(par[0] * 1000 + u);
            case 3: return static_cast<A>(u * std::pow(10.0, static_cast<int>(r.below(9)) - 4));
            case 4: return static_cast<A>(par[0]);
            case 5: return static_cast<A>((i % 2 ? -1 : 1) * (par[1] + u / 8));
            case 6: return static_cast<A>(std::floor(par[0]) + std::floor(par[1]) * static_cast<double>(i));
            case 7: return static_cast<A>(-2 + u);
            case 8: return static_cast<A>(u * 1e-9);
            case 9: return static_cast<A>(u * 1e9);
            case 10: return static_cast<A>(i == n / 2 ? par[0] * 50 : u);
            default: return static_cast<A>(std::sin(static_cast<double>(i) * par[1]) * par[0]);
        }
    }
    static Q eps() { return static_cast<Q>(std::numeric_limits<A>::epsilon()); }
};
template<typename A, int big> struct NumInt {
    enum { integral = 1 };
    static A value(int profile, size_t i, size_t, Rng& r, const double* par) {
        const int u = static_cast<int>(r.below(2 * big + 1)) - big;
        switch (profile) {
            case 4: return static_cast<A>(std::max(-big, std::min<int>(big, static_cast<int>(par[0]))));
            case 6: return static_cast<A>(std::max(-big, std::min<int>(big, static_cast<int>(par[0]) + static_cast<int>(par[1]) * static_cast<int>(i))));
            case 7: return static_cast<A>(-1 - std::abs(u) / 2);
            case 5: return static_cast<A>((i % 2 ? -1 : 1) * (big / 2 + u / 8));
            default: return static_cast<A>(u);
        }
    }
    static Q eps() { return 0; }
};
template<> struct Num<int> : NumInt<int, 1000> {};
template<> struct Num<short> : NumInt<short, 100> {};
template<> struct Num<signed char> : NumInt<signed char, 3> {};
template<> struct Num<long long> : NumInt<long long, 100000> {};

namespace mon {
#define NUMVAL(T) template<> struct Val<T> { static T make(int v) { return static_cast<T>(v); } static int get(T t) { return static_cast<int>(t); } static const char* name() { return #T; } static int fresh() { return 0; } };
NUMVAL(float) NUMVAL(long double) NUMVAL(short) NUMVAL(signed char) NUMVAL(long long)
}

template<typename K>
static Es fill(K& k, size_t n, int profile, Rng& r) {
    typedef typename std::remove_cv<typename K::Elem>::type A;
    double par[2] = {static_cast<double>(r.below(200001)) / 1000 - 100, static_cast<double>(r.below(6001)) / 1000 + 0.5};
    using efp::data;
    A* p = const_cast<A*>(data(k.cseq()));
    Es x;
    for (size_t i = 0; i < n; ++i) { p[i] = Num<A>::value(profile, i, n, r, par); x.push_back(mk(static_cast<Q>(p[i]), 0)); }
    return x;
}
template<typename K>
static Model length_for(Rng& r, size_t big) {
    size_t n;
    if (K::ct_size != DYN) n = K::ct_size;
    else if (K::ct_cap != DYN) n = 1 + r.below(K::ct_cap);
    else n = r.chance(30) ? 1 + r.below(4) : 1 + r.below(big);
    return Model(n, 1);
}
static std::string list(const Es& x) { std::string s = "["; for (size_t i = 0; i < x.size() && i < 12; ++i) s += (i ? " " : "") + qs(x[i].v); return s + sf("]#%zu", x.size()); }
static uint64_t digest(const Es& x) { uint64_t h = x.size(); for (size_t i = 0; i < x.size(); ++i) { const double d = static_cast<double>(x[i].v); uint64_t u; std::memcpy(&u, &d, 8); h = mix(h, u); } return h; }

// ---------------------------------------------------------------- one sequence
// exact for integers; the intermediate values of the textbook definition fit the type by choice of the inputs
template<typename A, typename S>
void reductions(const S& s, const Es& x) {
    const bool whole = Num<A>::integral != 0;
    Q hi = x[0].v, lo = x[0].v, sum = 0;
    for (size_t i = 0; i < x.size(); ++i) { hi = x[i].v > hi ? x[i].v : hi; lo = x[i].v < lo ? x[i].v : lo; sum += x[i].v; }
    g_eps = Num<A>::eps();
    if (static_cast<Q>(efp::max_elem(s)) != hi) bad("max_elem", "returned " + qs(static_cast<Q>(efp::max_elem(s))));
    if (static_cast<Q>(efp::min_elem(s)) != lo) bad("min_elem", "returned " + qs(static_cast<Q>(efp::min_elem(s))));
    SAME("sum", A, efp::sum(s));
    SAME("max_elem", A, efp::max_elem(s));
    if (whole) {
        const Q most = static_cast<Q>(std::numeric_limits<A>::max());
        if (static_cast<Q>(efp::max_min(s)) != hi - lo) bad("max_min", "returned " + qs(static_cast<Q>(efp::max_min(s))));
        Q run = 0; bool fits = true;
        for (size_t i = 0; i < x.size(); ++i) { run += x[i].v; fits = fits && qabs(run) <= most; }
        if (fits && static_cast<Q>(efp::sum(s)) != sum) bad("sum", "returned " + qs(static_cast<Q>(efp::sum(s))));
        Q prod = 1; bool ok = true;
        for (size_t i = 0; i < x.size(); ++i) { prod *= x[i].v; ok = ok && qabs(prod) <= most; }
        if (ok) { count("products that fit"); if (static_cast<Q>(efp::product(s)) != prod) bad("product", "returned " + qs(static_cast<Q>(efp::product(s)))); }
    } else {
        judge("max_min", efp::max_min(s), mk(hi, 0) - mk(lo, 0));
        judge("sum", efp::sum(s), total(x));
        E prod = mk(1, 0);
        Q least = 1, most = 1;
        for (size_t i = 0; i < x.size(); ++i) { prod = prod * x[i]; const Q p = qabs(prod.v); if (p < least) least = p; if (p > most) most = p; }
        if (least > static_cast<Q>(1e-30) && most < static_cast<Q>(1e30)) { count("products that fit"); judge("product", efp::product(s), prod); }
    }
}

template<typename R, typename A, typename S>
void moments(const S& s, const Es& x) {
    g_eps = std::max(Num<R>::eps(), Num<A>::eps());
    const size_t n = x.size();
    const E m = average(x);
    SAME("mean", R, efp::mean<R>(s));
    judge("mean", efp::mean<R>(s), m);
    // squares are summed in the element type
    if (!Num<A>::integral || total(times(x, x)).v <= static_cast<Q>(std::numeric_limits<A>::max())) judge("rms", efp::rms<R>(s), root(average(times(x, x))));
    const E v = covar(x, x, false);
    const R gv = efp::variance<R>(s);
    if (!(gv >= 0)) bad("variance", "is negative: " + qs(static_cast<Q>(gv)));
    judge("variance", gv, v);
    judge("standard_deviation", efp::standard_deviation<R>(s), root(v));
    judge("covariance with itself", efp::covariance<R>(s, s), v);
    if (n > 1) {
        const E b = covar(x, x, true);
        judge("variance<bessel>", efp::variance<R, true>(s), b);
        judge("standard_deviation<bessel>", efp::standard_deviation<R, true>(s), root(b));
        judge("covariance<bessel> with itself", efp::covariance<R, true>(s, s), b);
    }
    if (sane(v)) judge("correlation with itself", efp::correlation<R>(s, s), v / (root(v) * root(v)));
    // sequences out
    {
        const auto d = efp::remove_dc<R>(s);
        const Es want = less(x, m);
        if (static_cast<size_t>(efp::length(d)) != n) bad("remove_dc", "changes the length");
        else for (size_t i = 0; i < n; ++i) judge("remove_dc", efp::nth(i, d), want[i]);
    }
    for (size_t lag = 0; lag <= n; lag += 1 + (lag > 3 ? n / 4 : 0)) {
        const Es d = less(x, m);
        Es p;
        for (size_t i = 0; i + lag < n; ++i) p.push_back(d[i] * d[i + lag]);
        const E t = total(p);
        const int l = static_cast<int>(lag);
        judge("autocovariance", efp::autocovariance<R>(s, l), over(t, n));
        if (n > 1) judge("autocovariance<bessel>", efp::autocovariance<R, true>(s, l), over(t, n - 1));
        if (lag < n) judge("autocovariance<adjusted>", efp::autocovariance<R, false, true>(s, l), over(t, n - lag));
        if (lag + 1 < n) judge("autocovariance<bessel,adjusted>", efp::autocovariance<R, true, true>(s, l), over(t, n - lag - 1));
        if (sane(v)) {
            judge("autocorrelation", efp::autocorrelation<R>(s, l), over(t, n) / v);
            if (lag < n) judge("autocorrelation<adjusted>", efp::autocorrelation<R, false, true>(s, l), over(t, n - lag) / v);
            if (n > 1) judge("autocorrelation<bessel>", efp::autocorrelation<R, true>(s, l), over(t, n - 1) / covar(x, x, true));
        }
        count("lags");
    }
    if (n > 1) {
        Es is;
        for (size_t i = 0; i < n; ++i) is.push_back(mk(static_cast<Q>(i), 0));
        const E slope = covar(is, x, false) / covar(is, is, false), cut = m - slope * average(is);
        const auto l = efp::linear_regression_with_index<R>(s);
        judge("linear_regression_with_index slope", efp::get<0>(l), slope);
        judge("linear_regression_with_index intercept", efp::get<1>(l), cut);
        const auto d = efp::detrend<R>(s);
        if (static_cast<size_t>(efp::length(d)) != n) bad("detrend", "changes the length");
        else for (size_t i = 0; i < n; ++i) judge("detrend", efp::nth(i, d), x[i] - (slope * is[i] + cut));
    }
}

// ---------------------------------------------------------------- two sequences
template<typename R, typename A, typename B, typename S, typename T>
void pairs(const S& s, const T& t, const Es& x, const Es& y) {
    g_eps = std::max(Num<R>::eps(), std::max(Num<A>::eps(), Num<B>::eps()));
    const size_t n = x.size();
    const Es d = minus(x, y);
    const E e = total(times(d, d)), me = over(e, n);
    judge("sse", efp::sse<R>(s, t), e);
    judge("mse", efp::mse<R>(s, t), me);
    judge("rmse", efp::rmse<R>(s, t), root(me));
    const E my = average(y);
    if (sane(my)) judge("nrmse_mean", efp::nrmse_mean<R>(s, t), root(me) / my);
    Q hi = y[0].v, lo = y[0].v;
    for (size_t i = 0; i < n; ++i) { hi = y[i].v > hi ? y[i].v : hi; lo = y[i].v < lo ? y[i].v : lo; }
    const E range = mk(hi, 0) - mk(lo, 0);
    if (sane(range)) judge("nrmse_max_min", efp::nrmse_max_min<R>(s, t), root(me) / range);
    const E c = covar(x, y, false), vx = covar(x, x, false), vy = covar(y, y, false);
    judge("covariance", efp::covariance<R>(s, t), c);
    if (n > 1) judge("covariance<bessel>", efp::covariance<R, true>(s, t), covar(x, y, true));
    if (sane(vx) && sane(vy)) {
        judge("correlation", efp::correlation<R>(s, t), c / (root(vx) * root(vy)));
        if (n > 1) judge("correlation<bessel>", efp::correlation<R, true>(s, t), covar(x, y, true) / (root(covar(x, x, true)) * root(covar(y, y, true))));
        count("correlations");
    }
    if (sane(vx)) {
        const E slope = c / vx;
        const auto l = efp::linear_regression<R>(s, t);
        judge("linear_regression slope", efp::get<0>(l), slope);
        judge("linear_regression intercept", efp::get<1>(l), my - slope * average(x));
        count("regressions");
    }
}

template<typename R, typename K>
static void one(size_t rounds) {
    typedef typename std::remove_cv<typename K::Elem>::type A;
    const std::string name = K::name() + " as " + Val<R>::name();
    if (!wanted(name)) return;
    for (size_t t = 0; t < scaled(rounds); ++t) {
        Rng r(mix(st().seed * 31 + t, std::hash<std::string>()(name)));
        const Model m = length_for<K>(r, r.chance(5) && sizeof(A) > 2 ? 300 : 24);
        K k(m, r);
        const Es x = fill(k, m.size(), static_cast<int>(t % 12), r);
        g_what = name + list(x);
        begin_case(g_what);
        reductions<A>(k.cseq(), x);
        moments<R, A>(k.cseq(), x);
        seen(mix(digest(x), std::hash<std::string>()(name)));
    }
    count("sources of kind " + K::name(), scaled(rounds));
}

template<typename R, typename K, typename L>
static void two(size_t rounds) {
    typedef typename std::remove_cv<typename K::Elem>::type A;
    typedef typename std::remove_cv<typename L::Elem>::type B;
    const std::string name = K::name() + " with " + L::name() + " as " + Val<R>::name();
    if (!wanted(name)) return;
    for (size_t t = 0; t < scaled(rounds); ++t) {
        Rng r(mix(st().seed * 37 + t, std::hash<std::string>()(name)));
        Model m = length_for<K>(r, r.chance(5) ? 300 : 24);
        if (!L::fits(m.size())) { m = length_for<L>(r, 24); if (!K::fits(m.size())) continue; }
        K k(m, r);
        L l(m, r);
        const Es x = fill(k, m.size(), static_cast<int>(t % 12), r), y = fill(l, m.size(), static_cast<int>(r.below(12)), r);
        g_what = name + list(x) + list(y);
        begin_case(g_what);
        pairs<R, A, B>(k.cseq(), l.cseq(), x, y);
        seen(mix(digest(x), mix(digest(y), std::hash<std::string>()(name))));
    }
    count("pairs of sources", scaled(rounds));
}

// as long as sequences get before an index times an index stops fitting an int
static void long_sequences(size_t rounds) {
    if (!wanted("long")) return;
    for (size_t t = 0; t < rounds; ++t) {
        Rng r(mix(st().seed * 43, t));
        const size_t n = t == 0 ? 46342 : 40000 + r.below(50000);
        const Model m(n, 1);
        KVector<double> k(m, r);
        const Es x = fill(k, n, static_cast<int>(t % 2 ? r.below(12) : 6), r);
        g_what = "long Vector<double>" + list(x);
        begin_case(g_what);
        reductions<double>(k.cseq(), x);
        moments<double, double>(k.cseq(), x);
        seen(digest(x));
        count("long sequences");
    }
}

// ---------------------------------------------------------------- scalars
template<typename A, typename B>
void approx(A a, B b) {
    typedef typename std::common_type<A, B>::type C;
    const C x = static_cast<C>(a), y = static_cast<C>(b);
    const C d = x < y ? y - x : x - y;
    const bool want = d <= std::numeric_limits<C>::epsilon();
    if (static_cast<bool>(efp::is_approx(a, b)) != want)
        bad("is_approx", sf("of %.20Lg and %.20Lg (%zu and %zu bytes)", static_cast<long double>(a), static_cast<long double>(b), sizeof a, sizeof b));
    count("is_approx");
}
template<typename A> void near_values(Rng& r) {
    const A base = static_cast<A>(static_cast<int>(r.below(9)) - 4), e = std::numeric_limits<A>::epsilon();
    const A other[] = {base, base + e, base - e, base + 2 * e, base - 2 * e, base + e / 2, base + A(0.5), -base, base + 1};
    for (A o : other) {
        approx(base, o);
        approx(o, base);
        approx(o, static_cast<int>(base)); approx(static_cast<int>(base), o);
        approx(o, static_cast<long>(base)); approx(static_cast<long>(base), o);
        approx(o, static_cast<double>(base)); approx(static_cast<double>(base), o);
        approx(o, static_cast<float>(base)); approx(static_cast<float>(base), o);
    }
}
template<typename A> void scalar_int(Rng& r) {
    const A a = static_cast<A>(static_cast<int>(r.below(201)) - 100), b = static_cast<A>(static_cast<int>(r.below(7)) - 3);
    if (efp::abs(a) != (a < 0 ? static_cast<A>(-a) : a)) bad("abs", std::to_string(static_cast<long long>(a)));
    if (efp::square(b) != static_cast<A>(b * b)) bad("square", std::to_string(static_cast<long long>(b)));
    approx(a, a);
    approx(a, static_cast<A>(a + 1));
    approx(a, static_cast<long>(a));
    approx(a, static_cast<long>(b));
}
// the ends of the range of a type are numbers like any other
template<typename A> void extremes(Rng& r) {
    typedef std::numeric_limits<A> L;
    const A pool[] = {L::lowest(), L::max(), static_cast<A>(0), static_cast<A>(-1), static_cast<A>(1), static_cast<A>(L::lowest() + 1), static_cast<A>(L::max() - 1), L::is_integer ? static_cast<A>(2) : -L::min()};
    const size_t n = 1 + r.below(4);
    efp::Vector<A> v;
    efp::ArrVec<A, 4> w;
    A hi = L::lowest(), lo = L::max();
    for (size_t i = 0; i < n; ++i) { const A a = pool[r.below(8)]; v.push_back(a); w.push_back(a); hi = std::max(hi, a); lo = std::min(lo, a); }
    if (efp::max_elem(v) != hi || efp::max_elem(w) != hi) bad("max_elem", "at the end of the range");
    if (efp::min_elem(v) != lo || efp::min_elem(w) != lo) bad("min_elem", "at the end of the range");
    count("extremes");
}
template<typename A> void scalar(Rng& r) {
    double par[2] = {3, 2};
    const A a = Num<A>::value(static_cast<int>(r.below(12)), r.below(9), 9, r, par);
    if (efp::abs(a) != std::fabs(a)) bad("abs", qs(static_cast<Q>(a)));
    if (efp::square(a) != a * a) bad("square", qs(static_cast<Q>(a)));
    if (efp::sqrt(std::fabs(a)) != std::sqrt(std::fabs(a))) bad("sqrt", qs(static_cast<Q>(a)));
    if (efp::sin(a) != std::sin(a)) bad("sin", qs(static_cast<Q>(a)));
    if (efp::cos(a) != std::cos(a)) bad("cos", qs(static_cast<Q>(a)));
    if (efp::tan(a) != std::tan(a)) bad("tan", qs(static_cast<Q>(a)));
    near_values<A>(r);
    const std::complex<A> z(a, a + 1);
    if (efp::complex_cast<false>(z) != a || efp::complex_cast<true>(z) != z || efp::complex_cast<false>(a) != a || efp::complex_cast<true>(a) != std::complex<A>(a, 0)) bad("complex_cast", qs(static_cast<Q>(a)));
}

int main(int argc, char** argv) {
    init(argc, argv);
#if SLICE == 0
    one<double, KArray<double, 4>>(40); one<double, KArray<double, 1>>(12); one<double, KArrVec<double, 6>>(60); one<double, KVector<double>>(120);
    one<double, KArrayView<double, 5>>(24); one<double, KArrVecView<double, 6>>(24); one<double, KVectorView<double>>(36); one<double, KConstView<double>>(24);
    one<double, KVcb<double, 7>>(36); one<double, KVcq<double, 6>>(48); one<double, KStdArray<double, 9>>(24); one<double, KStdVector<double>>(48);
    one<double, KFixed<double, 4>>(24); one<double, KBounded<double, 6>>(24); one<double, KOpen<double>>(24);
    one<double, KVector<int>>(60); one<double, KArrVec<int, 20>>(36); one<double, KArray<int, 8>>(24);
    long_sequences(2 + scaled(1) / 10);
#elif SLICE == 1
    one<float, KVector<float>>(80); one<float, KArray<float, 6>>(36); one<float, KArrVec<float, 9>>(36); one<float, KVectorView<float>>(24);
    one<float, KVector<int>>(40); one<float, KVector<double>>(40); one<double, KVector<float>>(40); one<long double, KVector<long double>>(60);
    one<long double, KVector<double>>(30); one<long double, KArrVec<int, 12>>(24); one<double, KVector<long double>>(24);
    one<double, KVector<short>>(40); one<double, KVector<signed char>>(40); one<double, KVector<long long>>(40); one<float, KArray<short, 5>>(24);
    Rng r(st().seed * 41);
    for (size_t t = 0; t < scaled(200); ++t) {
        g_what = sf("scalar round %zu", t);
        begin_case(g_what);
        scalar<float>(r); scalar<double>(r); scalar<long double>(r);
        extremes<int>(r); extremes<short>(r); extremes<signed char>(r); extremes<long long>(r); extremes<unsigned>(r); extremes<float>(r); extremes<double>(r); extremes<long double>(r);
        scalar_int<int>(r); scalar_int<short>(r); scalar_int<long long>(r); scalar_int<signed char>(r);
        seen(mix(77, t));
    }
#else
    two<double, KVector<double>, KVector<double>>(120); two<double, KArray<double, 5>, KArray<double, 5>>(40); two<double, KArrVec<double, 8>, KVector<double>>(40);
    two<double, KVectorView<double>, KArrVec<double, 12>>(40); two<double, KStdVector<double>, KVcq<double, 6>>(40); two<double, KVcb<double, 6>, KStdArray<double, 6>>(24);
    two<double, KOpen<double>, KBounded<double, 10>>(24); two<double, KFixed<double, 4>, KConstView<double>>(24);
    two<double, KVector<int>, KVector<double>>(40); two<double, KVector<double>, KVector<int>>(40); two<double, KVector<int>, KVector<int>>(60);
    two<float, KVector<float>, KVector<float>>(60); two<float, KArrVec<int, 9>, KVector<float>>(36); two<float, KVector<double>, KVector<float>>(36); two<double, KVector<float>, KVector<double>>(36);
    two<long double, KVector<long double>, KVector<double>>(40); two<double, KVector<short>, KVector<short>>(36); two<double, KVector<long long>, KVector<int>>(36);
#endif
    sample(g_what);
    return finish();
}
