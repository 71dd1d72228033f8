// C13: formatting against a reference implementation of the same format language, a C-library
// reference, round trips, and captured standard output.
#define FMT_HEADER_ONLY
#include <fmt/format.h>

#include <cerrno>
#include <cfloat>
#include <cmath>
#include <climits>
#include <limits>
#include <list>
#include <memory>
#include <string>
#include <vector>
#include <fcntl.h>

#include "efp.hpp"
#include "mon.hpp"

using mon::Rng;
using mon::sf;
using mon::violation;

namespace {

std::string vis(const std::string& s) {
    std::string r;
    for (size_t i = 0; i < s.size() && i < 300; ++i) {
        const unsigned char c = static_cast<unsigned char>(s[i]);
        if (c < 32 || c > 126) r += sf("\\x%02x", c);
        else r += s[i];
    }
    if (s.size() > 300) r += sf("... (%zu)", s.size());
    return r;
}

struct Out {
    bool threw;
    std::string text;
    bool operator==(const Out& o) const { return threw == o.threw && (threw || text == o.text); }
};

std::string shown(const Out& o) { return o.threw ? "<error: " + o.text + ">" : "\"" + vis(o.text) + "\""; }

// how one argument is handed to the reference
template<typename T> const T& ref_of(const T& t) { return t; }
inline std::string ref_of(const efp::String& s) { return std::string(s.data(), s.size()); }
inline std::string ref_of(const efp::StringView& s) { return std::string(s.data(), s.size()); }

template<typename... As>
Out run_efp(const std::string& f, const As&... as) {
    // exactly sized copy: reading past the format string is a sanitizer report
    std::vector<char> fs(f.begin(), f.end());
    fs.shrink_to_fit();
    Out o = {false, ""};
    try {
        const efp::String s = efp_fmt::vformat(efp_fmt::string_view(fs.data(), fs.size()), efp_fmt::make_format_args(as...));
        o.text.assign(s.data(), s.size());
        if (s.c_str()[s.size()] != 0) violation("unterminated", vis(f));
    } catch (const efp_fmt::format_error& e) {
        o.threw = true;
        o.text = e.what();
    } catch (const std::exception& e) {
        violation("wrong-exception", vis(f) + " raised " + e.what());
        o.threw = true;
    }
    return o;
}

template<typename... As>
Out run_efp_api(const std::string& f, const As&... as) {
    Out o = {false, ""};
    try {
        const efp::String s = efp::format(efp_fmt::runtime(efp_fmt::string_view(f.data(), f.size())), as...);
        o.text.assign(s.data(), s.size());
    } catch (const efp_fmt::format_error& e) {
        o.threw = true;
        o.text = e.what();
    }
    return o;
}

template<typename... As>
Out run_ref(const std::string& f, const As&... as) {
    Out o = {false, ""};
    try {
        o.text = fmt::vformat(fmt::string_view(f.data(), f.size()), fmt::make_format_args(as...));
    } catch (const fmt::format_error& e) {
        o.threw = true;
        o.text = e.what();
    }
    return o;
}

template<typename... As>
void diff(const char* what, const std::string& f, const As&... as) {
    const Out a = run_efp(f, as...);
    const Out b = run_ref(f, ref_of(as)...);
    mon::count(b.threw ? "format errors compared" : "texts compared");
    mon::seen(mon::mix(std::hash<std::string>()(f), std::hash<std::string>()(a.text)));
    if (!(a == b)) violation(std::string("text:") + what, vis(f) + " gives " + shown(a) + ", expected " + shown(b));
}


// ------------------------------------------------------------------------------------------------
// One replacement field. text() is what the code under test gets; ref() is the same field in the
// reference's dialect (an earlier version of the format language: an explicit alignment does not
// yet switch the '0' flag off there).
struct Spec {
    std::string fill;
    char align, sign, type;
    bool alt, zero, loc;
    int width, prec;      // -1: none, -2: from an argument
    int nested() const { return (width == -2) + (prec == -2); }
    std::string render(bool drop_zero, bool drop_loc, const std::string& wa = "{}", const std::string& pa = "{}") const {
        std::string s;
        if (align) { s += fill; s += align; }
        if (sign) s += sign;
        if (alt) s += '#';
        if (zero && !drop_zero) s += '0';
        if (width == -2) s += wa; else if (width >= 0) s += std::to_string(width);
        if (prec == -2) s += "." + pa; else if (prec >= 0) s += "." + std::to_string(prec);
        if (loc && !drop_loc) s += 'L';
        if (type) s += type;
        return s;
    }
    bool trivial() const { return render(false, false).empty(); }
};

Spec random_spec(Rng& r, const char* types, bool arithmetic) {
    static const char* fills[] = {"*", "0", " ", "x", "<", "-", "\xc3\xa9", "\xe2\x82\xac", "#", ".", "?", "\xf0\x9f\x98\x80", "", "", "", ""};
    Spec s;
    s.align = r.chance(45) ? "<>^"[r.below(3)] : 0;
    s.fill = fills[r.below(16)];
    s.sign = r.chance(arithmetic ? 30 : 4) ? "+- "[r.below(3)] : 0;
    s.alt = r.chance(arithmetic ? 30 : 4);
    s.zero = r.chance(arithmetic ? 25 : 3);
    s.width = r.chance(50) ? (r.chance(30) ? -2 : static_cast<int>(r.chance(92) ? r.range(1, 30) : r.range(1, 1500))) : -1;
    s.prec = r.chance(30) ? (r.chance(30) ? -2 : static_cast<int>(r.chance(92) ? r.range(0, 20) : r.range(0, 450))) : -1;   // the reference drops decimals beyond 767 digits
    s.loc = r.chance(6);
    s.type = r.chance(65) ? types[r.below(std::strlen(types))] : 0;
    if (r.chance(2)) s.type = "bBcdoxXeEfFgGaAsp?zqD"[r.below(21)];
    return s;
}

const char* INT_TYPES = "dxXobBc";
const char* FLT_TYPES = "eEfFgG";

template<typename T> struct Kind;
#define KIND(T, NAME, TYPES, ARITH) \
    template<> struct Kind<T> { static const char* name() { return NAME; } static const char* types() { return TYPES; } static bool arith() { return ARITH; } };
KIND(signed char, "signed char", INT_TYPES, true)
KIND(unsigned char, "unsigned char", INT_TYPES, true)
KIND(short, "short", INT_TYPES, true)
KIND(unsigned short, "unsigned short", INT_TYPES, true)
KIND(int, "int", INT_TYPES, true)
KIND(unsigned, "unsigned", INT_TYPES, true)
KIND(long, "long", INT_TYPES, true)
KIND(unsigned long, "unsigned long", INT_TYPES, true)
KIND(long long, "long long", INT_TYPES, true)
KIND(unsigned long long, "unsigned long long", INT_TYPES, true)
KIND(__int128, "int128", INT_TYPES, true)
KIND(unsigned __int128, "uint128", INT_TYPES, true)
KIND(char, "char", "cdxXobB?", true)
KIND(bool, "bool", "sdxXobB", true)
KIND(float, "float", FLT_TYPES, true)
KIND(double, "double", FLT_TYPES, true)
KIND(long double, "long double", FLT_TYPES, true)
KIND(const void*, "pointer", "p", false)
KIND(std::nullptr_t, "nullptr", "p", false)
KIND(const char*, "C string", "s?", false)
KIND(efp::String, "String", "s?", false)
KIND(efp::StringView, "StringView", "s?", false)

template<typename T> struct IsFloat { enum { value = 0 }; };
template<> struct IsFloat<float> { enum { value = 1 }; };
template<> struct IsFloat<double> { enum { value = 1 }; };
template<> struct IsFloat<long double> { enum { value = 1 }; };

inline bool int_type(char t) { return t && std::strchr("dxXobB", t) != nullptr; }

// the reference's dialect for one argument
template<typename T> auto ref_arg(const T& v, const Spec&) -> decltype(ref_of(v)) { return ref_of(v); }

void judge(const char* kind, const std::string& f, const Out& a, const Out& b) {
    mon::count(b.threw ? "format errors compared" : "texts compared");
    mon::seen(mon::mix(std::hash<std::string>()(f), std::hash<std::string>()(a.text)));
    if (f.size() > 6) mon::sample(vis(f) + " -> " + shown(a));
    if (!(a == b)) violation(std::string("text: ") + kind, vis(f) + " gives " + shown(a) + ", expected " + shown(b));
}

template<typename R>
Out ref_with(const Spec& s, const std::string& f, const R& v, int w, int p) {
    if (s.nested() == 0) return run_ref(f, v);
    if (s.nested() == 1) return run_ref(f, v, s.width == -2 ? w : p);
    return run_ref(f, v, w, p);
}

Out ref_char(const Spec& s, const std::string& f, char v, int w, int p) {
    // a char shown as an integer is the unsigned value, on every platform
    if (int_type(s.type)) return ref_with(s, f, static_cast<unsigned char>(v), w, p);
    return ref_with(s, f, v, w, p);
}
template<typename T> Out ref_any(const Spec& s, const std::string& f, const T& v, int w, int p) { return ref_with(s, f, ref_of(v), w, p); }
inline Out ref_any(const Spec& s, const std::string& f, const char& v, int w, int p) { return ref_char(s, f, v, w, p); }

// '#' without a type keeps the point; whether a zero follows it when no digit is left is where the
// two versions of the format language differ.
bool point_variant(const Out& a, const Out& b) {
    if (a.threw || b.threw) return false;
    const size_t e = b.text.find(".0");
    if (e == std::string::npos) return false;
    return a.text == b.text.substr(0, e + 1) + b.text.substr(e + 2);
}

// valgrind computes long double with the precision of double
bool wide_long_double() {
    volatile long double one = 1, eps = LDBL_EPSILON;
    volatile long double sum = one + eps;
    return sum != one;
}

// the reference formats a long double power of two as its neighbour
template<typename T> bool skip_reference(const T&) { return false; }
template<> bool skip_reference<long double>(const long double& v) {
    int e;
    return !wide_long_double() || std::fabs(std::frexp(v, &e)) == 0.5L;
}

template<typename T>
void field(Rng& r, const T& v) {
    Spec s = random_spec(r, Kind<T>::types(), Kind<T>::arith());
    const bool sharp_general = IsFloat<T>::value && s.alt && !(s.type && std::strchr("eEfF", s.type));
    if (sharp_general) { s.width = -1; s.zero = false; s.align = 0; s.loc = false; }
    if (IsFloat<T>::value && (s.type == 'a' || s.type == 'A')) s.type = 0;
    if (skip_reference(v) || (std::is_same<T, long double>::value && (s.type || s.prec != -1))) return;   // see against_c_library
    const int w = r.chance(97) ? r.range(0, 40) : r.range(-3, 5000);
    const int p = r.chance(97) ? r.range(0, 20) : r.range(-3, 300);
    const bool drop = s.align && s.zero && Kind<T>::arith();
    const bool lax = Kind<T>::arith() && !IsFloat<T>::value && int_type(s.type ? s.type : 'd');   // L changes nothing in the classic locale
    const bool bare = s.trivial() && r.chance(60);
    Out a, b;
    std::string f, g;
    switch (s.nested() && !bare ? r.below(2) : 0) {
    case 0: {
        f = bare ? "{}" : "{:" + s.render(false, false) + "}";
        g = bare ? "{}" : "{:" + s.render(drop, lax) + "}";
        if (s.nested() == 0) a = run_efp(f, v);
        else if (s.nested() == 1) a = run_efp(f, v, s.width == -2 ? w : p);
        else a = run_efp(f, v, w, p);
        b = ref_any(s, g, v, w, p);
        break;
    }
    default: {
        // manual indexing, also of the nested arguments
        f = "{0:" + s.render(false, false, "{1}", s.nested() == 2 ? "{2}" : "{1}") + "}";
        g = "{0:" + s.render(drop, lax, "{1}", s.nested() == 2 ? "{2}" : "{1}") + "}";
        if (s.nested() == 1) a = run_efp(f, v, s.width == -2 ? w : p);
        else a = run_efp(f, v, w, p);
        b = ref_any(s, g, v, w, p);
        mon::count("nested arguments by position");
    }
    }
    if (sharp_general && point_variant(a, b)) { mon::count("point without digits"); return; }
    judge(Kind<T>::name(), f, a, b);
}

template<typename T> T some_int(Rng& r) {
    const T top = std::numeric_limits<T>::max(), bot = std::numeric_limits<T>::min();
    switch (r.below(8)) {
    case 0: return 0;
    case 1: return static_cast<T>(top - static_cast<T>(r.below(2)));
    case 2: return static_cast<T>(bot + static_cast<T>(r.below(2)));
    case 3: return static_cast<T>(r.range(-12, 12));
    case 4: { T p = 1; for (size_t k = r.below(19); k > 0 && p < top / 10; --k) p = static_cast<T>(p * 10); return static_cast<T>(p - static_cast<T>(r.below(2))); }
    case 5: return static_cast<T>(r.next() >> r.below(64));
    default: return static_cast<T>(r.next());
    }
}
__int128 some_128(Rng& r) {
    switch (r.below(4)) {
    case 0: return static_cast<__int128>(some_int<long long>(r)) * some_int<long long>(r);
    case 1: return static_cast<__int128>(static_cast<unsigned __int128>(1) << 127);
    case 2: return static_cast<__int128>((static_cast<unsigned __int128>(r.next()) << 64) | r.next());
    default: return some_int<int>(r);
    }
}

template<typename T> T from_bits(Rng& r);
template<> float from_bits<float>(Rng& r) { const uint32_t b = static_cast<uint32_t>(r.next()); float f; std::memcpy(&f, &b, 4); return f; }
template<> double from_bits<double>(Rng& r) { const uint64_t b = r.next(); double f; std::memcpy(&f, &b, 8); return f; }
template<> long double from_bits<long double>(Rng& r) { return std::ldexp(static_cast<long double>(r.next() | (1ull << 63)), r.range(-16000, 16000)) * (r.chance(50) ? 1 : -1); }

template<typename T> T some_float(Rng& r) {
    typedef std::numeric_limits<T> L;
    switch (r.below(13)) {
    case 0: return r.chance(50) ? T(0) : -T(0);
    case 1: return r.chance(50) ? L::infinity() : -L::infinity();
    case 2: return r.chance(50) ? L::quiet_NaN() : -L::quiet_NaN();
    case 3: return r.chance(50) ? L::max() : L::lowest();
    case 4: return r.chance(50) ? L::denorm_min() : L::min();
    case 5: return static_cast<T>(r.range(-1000, 1000)) / 8;
    case 6: return static_cast<T>(r.range(-100000, 100000)) / 1000;
    case 7: return static_cast<T>(std::pow(10.0L, r.range(-30, 30)));
    case 8: return static_cast<T>(r.range(0, 99)) + T(0.5);
    case 9: { const T x = static_cast<T>(std::pow(10.0L, r.range(-6, 6))); return r.chance(50) ? std::nextafter(x, T(0)) : std::nextafter(x, L::max()); }
    case 10: return static_cast<T>(std::ldexp(1.0L, r.range(-60, 60)));
    default: return from_bits<T>(r);
    }
}

std::string some_text(Rng& r) {
    static const char* pieces[] = {"", "a", "hello", "\xc3\xa9t\xc3\xa9", "quote\"'\n\t\\", "\xf0\x9f\x98\x80", " ", "{}", "%d", "\xe6\x97\xa5\xe6\x9c\xac", "0123456789", "\x01\x7f", "\xcc\x81",
                                   "\r", "\xc2\x85", "\xe2\x80\xa8", "\xf3\xa0\x80\x81", "\xed\x9f\xbf"};
    std::string s;
    for (size_t n = r.below(5); n > 0; --n) s += pieces[r.below(18)];
    if (r.chance(3)) s += std::string(r.below(2000), 'y');
    return s;
}

void scalar_fields(Rng& r) {
    field<signed char>(r, some_int<signed char>(r));
    field<unsigned char>(r, some_int<unsigned char>(r));
    field<short>(r, some_int<short>(r));
    field<unsigned short>(r, some_int<unsigned short>(r));
    field<int>(r, some_int<int>(r));
    field<unsigned>(r, some_int<unsigned>(r));
    field<long>(r, some_int<long>(r));
    field<unsigned long>(r, some_int<unsigned long>(r));
    field<long long>(r, some_int<long long>(r));
    field<unsigned long long>(r, some_int<unsigned long long>(r));
    field<__int128>(r, some_128(r));
    field<unsigned __int128>(r, static_cast<unsigned __int128>(some_128(r)));
    field<char>(r, static_cast<char>(r.chance(70) ? r.range(32, 126) : static_cast<int>(r.below(256))));
    field<bool>(r, r.chance(50));
    field<float>(r, some_float<float>(r));
    field<double>(r, some_float<double>(r));
    field<long double>(r, some_float<long double>(r));
    field<const void*>(r, reinterpret_cast<const void*>(static_cast<uintptr_t>(some_int<unsigned long>(r))));
    field<std::nullptr_t>(r, nullptr);
    const std::string t = some_text(r);
    const std::vector<char> z(t.c_str(), t.c_str() + t.size() + 1);
    field<const char*>(r, z.data());
    field<efp::String>(r, efp::String(t.c_str()));
    std::vector<char> ex(t.begin(), t.end());
    ex.shrink_to_fit();
    field<efp::StringView>(r, efp::StringView(ex.data(), ex.size()));
    // embedded nulls
    const std::string n("a\0b", 3);
    field<efp::StringView>(r, efp::StringView(n.data(), n.size()));
}

// ------------------------------------------------------------------------------------------------
// floating point against the C library, and read back
template<typename T> T read_back(const char* s, char** e);
template<> float read_back<float>(const char* s, char** e) { return std::strtof(s, e); }
template<> double read_back<double>(const char* s, char** e) { return std::strtod(s, e); }
template<> long double read_back<long double>(const char* s, char** e) { return std::strtold(s, e); }

template<typename T>
void against_c_library(Rng& r, T v) {
    static char buf[40000];
    const bool finite = std::isfinite(v);
    const char type = FLT_TYPES[r.below(6)];
    const int prec = r.chance(25) ? -1 : r.chance(85) ? r.range(0, 22) : r.range(0, 700);
    const bool alt = r.chance(15) && type != 'g' && type != 'G';
    const char sign = r.chance(25) ? "+ "[r.below(2)] : 0;
    const bool left = r.chance(20), zero = !left && finite && r.chance(20);
    const int width = r.chance(40) ? r.range(1, 40) : 0;
    std::string f = "{:", c = "%";
    if (width && !zero) f += left ? '<' : '>';
    if (left) c += '-';
    if (sign) { f += sign; c += sign; }
    if (alt) { f += '#'; c += '#'; }
    if (zero) { f += '0'; c += '0'; }
    if (width) { f += std::to_string(width); c += std::to_string(width); }
    if (prec >= 0) { f += "." + std::to_string(prec); c += "." + std::to_string(prec); }
    f += type;
    f += "}";
    if (std::is_same<T, long double>::value) { c += 'L'; c += type; snprintf(buf, sizeof buf, c.c_str(), static_cast<long double>(v)); }
    else { c += type; snprintf(buf, sizeof buf, c.c_str(), static_cast<double>(v)); }
    std::string want = buf;
    // the sign of a NaN is not the C library's business
    const Out a = run_efp(f, v), b = {false, want};
    judge((std::string(Kind<T>::name()) + " against the C library").c_str(), f + " of " + sf("%.36Lg", static_cast<long double>(v)), a, b);
    mon::count("texts compared with the C library");
    if (!finite) return;
    // without precision: reads back as the same number, and no shorter text would
    {
        static const char* sh[] = {"{}", "{:>40}", "{:+}", "{:<50}", "{:012}"};
        const char* g = sh[r.below(5)];
        const Out o = run_efp(g, v);
        char* e = nullptr;
        const T back = read_back<T>(o.text.c_str(), &e);
        while (*e == ' ') ++e;
        if (o.threw || *e || std::memcmp(&back, &v, std::is_same<T, long double>::value ? 10 : sizeof(T)) != 0)
            violation("round trip", std::string(g) + " of " + sf("%.36Lg", static_cast<long double>(v)) + " gives " + shown(o));
        size_t digits = 0, lead = 1, zeros = 0;
        for (const char* p = o.text.c_str(); *p && *p != 'e'; ++p)
            if (*p >= '0' && *p <= '9') {
                if (lead && *p == '0') continue;
                lead = 0;
                ++digits;
                zeros = *p == '0' ? zeros + 1 : 0;
            }
        digits -= zeros;
        if (v != 0 && std::fabs(v) >= std::numeric_limits<T>::min()) {
            // the C library's text with one digit less must not read back
            const size_t most = std::is_same<T, float>::value ? 9 : std::is_same<T, double>::value ? 17 : 21;
            if (digits > most) violation("too many digits", shown(o));
            if (digits > 1) {
                snprintf(buf, sizeof buf, "%.*Le", static_cast<int>(digits) - 2, static_cast<long double>(v));
                if (read_back<T>(buf, &e) == v) violation("not shortest", shown(o) + " although " + buf + " reads back");
            }
        }
        mon::count("numbers read back");
    }
    // hexadecimal: exact without precision
    {
        const bool up = r.chance(30);
        const Out o = run_efp(up ? "{:A}" : "{:a}", v);
        char* e = nullptr;
        const T back = read_back<T>(o.text.c_str(), &e);
        if (o.threw || *e || std::memcmp(&back, &v, std::is_same<T, long double>::value ? 10 : sizeof(T)) != 0 || o.text.find(up ? "0X" : "0x") == std::string::npos
            || o.text.find(up ? 'P' : 'p') == std::string::npos)
            violation("hexadecimal", sf("%.36Lg", static_cast<long double>(v)) + " gives " + shown(o));
        const int hp = r.range(0, 20);
        const Out q = run_efp(sf("{:.%d%c}", hp, up ? 'A' : 'a'), v);
        const long double rounded = std::strtold(q.text.c_str(), &e);
        const size_t point = q.text.find('.');
        const size_t pe = q.text.find(up ? 'P' : 'p');
        const size_t got = point == std::string::npos || pe == std::string::npos ? 0 : pe - point - 1;
        // one unit of the last hexadecimal digit of a leading digit below 16; subnormal and overflowing results aside
        const long double av = std::fabs(static_cast<long double>(v));
        const bool plain = v != 0 && av >= std::numeric_limits<T>::min() * 16.0L && av <= std::numeric_limits<T>::max() / 32;
        if (q.threw || *e || got != static_cast<size_t>(hp)
            || (plain && std::fabs(rounded / static_cast<long double>(v) - 1) > std::ldexp(0.51L, -4 * hp) + std::numeric_limits<long double>::epsilon() * 4))
            violation("hexadecimal precision", sf("{:.%da} of %.36Lg", hp, static_cast<long double>(v)) + " gives " + shown(q));
    }
}

// integers against the C library
void integers_against_c(Rng& r) {
    const long long v = some_int<long long>(r);
    const unsigned long long u = some_int<unsigned long long>(r);
    const int w = r.range(0, 30);
    struct { const char* f; const char* c; bool sig; } t[] = {
        {"{:%d}", "%%%dlld", true}, {"{:<%d}", "%%-%dlld", true}, {"{:+%d}", "%%+%dlld", true}, {"{: %d}", "%% %dlld", true}, {"{:0%d}", "%%0%dlld", true}, {"{:+0%d}", "%%+0%dlld", true},
        {"{:%dx}", "%%%dllx", false}, {"{:%dX}", "%%%dllX", false}, {"{:%do}", "%%%dllo", false}, {"{:0%dX}", "%%0%dllX", false}};
    for (size_t i = 0; i < sizeof t / sizeof t[0]; ++i) {
        const int ww = w ? w : 1;
        std::string f = sf(t[i].f, ww), c = sf(t[i].c, ww);
        char buf[100];
        Out a;
        if (t[i].sig) { snprintf(buf, sizeof buf, c.c_str(), v); a = run_efp(f, v); }
        else { snprintf(buf, sizeof buf, c.c_str(), u); a = run_efp(f, u); }
        const Out b = {false, buf};
        judge("integer against the C library", f, a, b);
    }
}

// ------------------------------------------------------------------------------------------------
// whole format strings: literal text, escapes, several arguments, and damaged versions of them
struct Args {
    int i; unsigned long long u; double d; const char* s; char c; bool b; std::string t;
};

Out efp_all(const std::string& f, const Args& a, bool named) {
    const efp::String t(a.t.c_str());
    if (named)
        return run_efp(f, a.i, a.u, a.d, a.s, a.c, a.b, t, efp_fmt::arg("width", a.i), efp_fmt::arg("x1", a.d), efp_fmt::arg("name", a.s));
    return run_efp(f, a.i, a.u, a.d, a.s, a.c, a.b, t);
}
Out ref_all(const std::string& f, const Args& a, bool named) {
    if (named)
        return run_ref(f, a.i, a.u, a.d, a.s, a.c, a.b, a.t, fmt::arg("width", a.i), fmt::arg("x1", a.d), fmt::arg("name", a.s));
    return run_ref(f, a.i, a.u, a.d, a.s, a.c, a.b, a.t);
}

std::string literal(Rng& r) {
    static const char* l[] = {"", "", " ", "text ", "{{", "}}", "\xc3\xa9", "100%", "a{{b}}c", "\n", ":", "\\"};
    return l[r.below(12)];
}

void whole_strings(Rng& r, size_t n) {
    static const char* auto_f[] = {"{}", "{:>12}", "{:<8}", "{:^20}", "{:*^9}"};
    static const char* pos_f[] = {"{0}", "{1:x}", "{2:.3f}", "{3:>10}", "{4:c}", "{5}", "{6:.2}", "{0:+d}", "{1:#b}", "{2:e}", "{3:{0}}", "{2:.{0}f}",
                                  "{0:08d}", "{6:_<{0}.{0}}", "{4:d}", "{5:d}", "{6}", "{2:012.4g}"};
    static const char* named_f[] = {"{name}", "{width:d}", "{x1:.2f}", "{name:{width}}", "{x1:{width}.{width}f}", "{3:{width}s}"};
    for (size_t k = 0; k < n; ++k) {
        mon::begin_case("whole format strings");
        Args a;
        a.i = r.chance(70) ? r.range(0, 25) : some_int<int>(r) % 450;
        a.u = some_int<unsigned long long>(r);
        a.d = some_float<double>(r);
        if (std::fabs(a.d) > 1e30 || (a.d != 0 && std::fabs(a.d) < 1e-30)) a.d = r.range(-1000, 1000) / 7.0;
        const std::string text = some_text(r);
        a.s = text.c_str();
        a.c = static_cast<char>(r.range(33, 126));
        a.b = r.chance(50);
        a.t = some_text(r);
        const bool named = r.chance(40);
        const int mode = r.range(0, 2);
        std::string f = literal(r);
        const size_t nf = r.below(8);
        for (size_t j = 0; j < nf; ++j) {
            if (mode == 0) f += auto_f[r.below(j < 3 ? 5 : 4)];
            else if (mode == 1 || !named) f += pos_f[r.below(18)];
            else f += named_f[r.below(6)];
            f += literal(r);
        }
        const Out x = efp_all(f, a, named), y = ref_all(f, a, named);
        judge("whole string", f, x, y);
        {
            const efp::String t(a.t.c_str());
            const Out z = run_efp_api(f, a.i, a.u, a.d, a.s, a.c, a.b, t);
            if (!named) {
                if (!(z == x)) violation("entry points differ", vis(f) + " gives " + shown(z) + " and " + shown(x));
                size_t size = ~static_cast<size_t>(0);
                try { size = efp_fmt::formatted_size(efp_fmt::runtime(efp_fmt::string_view(f.data(), f.size())), a.i, a.u, a.d, a.s, a.c, a.b, t); } catch (const efp_fmt::format_error&) {}
                if (size != (x.threw ? ~static_cast<size_t>(0) : x.text.size())) violation("formatted_size", vis(f) + sf(" has size %zu, text has %zu", size, x.text.size()));
                if (!x.threw) {
                    // bounded output: exactly the first bytes, nothing after them
                    const size_t cap = r.below(x.text.size() + 10);
                    std::vector<char> buf(cap);
                    const auto res = efp_fmt::format_to_n(buf.data(), cap, efp_fmt::runtime(efp_fmt::string_view(f.data(), f.size())), a.i, a.u, a.d, a.s, a.c, a.b, t);
                    const size_t want = cap < x.text.size() ? cap : x.text.size();
                    if (res.size != x.text.size() || res.out != buf.data() + want || x.text.compare(0, want, std::string(buf.data(), want)) != 0)
                        violation("format_to_n", vis(f) + sf(" into %zu bytes", cap));
                    efp_fmt::memory_buffer mb;
                    efp_fmt::format_to(efp_fmt::appender(mb), efp_fmt::runtime(efp_fmt::string_view(f.data(), f.size())), a.i, a.u, a.d, a.s, a.c, a.b, t);
                    if (std::string(mb.data(), mb.size()) != x.text) violation("memory_buffer", vis(f));
                    const efp::String ts = efp_fmt::to_string(mb);
                    if (std::string(ts.data(), ts.size()) != x.text) violation("to_string", vis(f));
                }
            }
        }
        // damage it
        for (int m = 0; m < 3; ++m) {
            std::string g = f;
            for (size_t j = 1 + r.below(3); j > 0; --j) {
                static const char al[] = "{}:<>^+- #0123456789.abcdefgxXopsL?!_%";
                const size_t at = r.below(g.size() + 1);
                switch (r.below(4)) {
                case 0: g.insert(at, 1, al[r.below(sizeof al - 1)]); break;
                case 1: if (at < g.size()) g.erase(at, 1); break;
                case 2: if (at < g.size()) g[at] = al[r.below(sizeof al - 1)]; break;
                default: g.resize(at);
                }
            }
            // differences between the two versions of the language (see Spec and point_variant)
            bool skip = false;
            for (size_t j = 0; j + 1 < g.size(); ++j) {
                if (std::strchr("<>^", g[j])) {
                    size_t q = j + 1;
                    while (q < g.size() && std::strchr("+- #", g[q])) ++q;
                    if (q < g.size() && g[q] == '0') skip = true;
                }
                if (std::strchr(":+- #", g[j]) && g[j + 1] == '0' && j + 2 < g.size() && g[j + 2] == '0') skip = true;   // '0' twice
                if (std::strchr(":<>^", g[j]) && std::strchr("+- ", g[j + 1])) skip = true;   // sign of a char shown as an integer
                if (g[j] == '}' && std::strchr("<>^", g[j + 1])) skip = true;                 // '}' as a fill
                if (g[j] == '#' || g[j] == 'a' || g[j] == 'A') skip = true;
            }
            if (skip) continue;
            judge("damaged string", g, efp_all(g, a, named), ref_all(g, a, named));
        }
    }
}

// ------------------------------------------------------------------------------------------------
// numbers in a format string that no int can hold: refused, never taken modulo something
template<typename... As> void refused(const char* what, const std::string& f, const As&... as) {
    const Out o = run_efp(f, as...);
    mon::count("numbers out of range");
    mon::seen(std::hash<std::string>()(what + f));
    if (!o.threw) violation(std::string("number out of range: ") + what, vis(f) + " gives " + shown(o));
}
void out_of_range(Rng& r) {
    static const unsigned long long base[] = {2147483648ull, 4294967296ull, 4294967296ull, 8589934592ull, 2147483648ull * 5, 1ull << 40, 1ull << 63, 9999999990ull, 21474836480ull, 42949672960ull, 6442450944ull, 9223372036854775808ull};
    const unsigned long long b = base[r.below(12)] + r.below(30);
    std::string n = sf("%llu", b);
    if (r.chance(20)) n += sf("%llu", static_cast<unsigned long long>(r.below(1000000)));
    if (r.chance(10)) n += std::string(r.below(60), '0');
    refused("width", "{:" + n + "}", r.range(-9, 9));
    refused("width", "{:<" + n + "}", "abc");
    refused("width", "{:*^" + n + "d}", 5ull);
    refused("width", "{:0" + n + "}", 1.5);
    refused("precision", "{:." + n + "f}", 1.5);
    refused("precision", "{:3." + n + "}", "abc");
    refused("index", "{" + n + "}", 1, 2, 3);
    refused("index", "{0:{" + n + "}}", 1, 2, 3);
    refused("index", "{0:.{" + n + "}f}", 1.0, 2, 3);
    const unsigned long long big = b;
    refused("dynamic width", "{:{}}", 1, big);
    refused("dynamic width", "{:{}}", "x", static_cast<long long>(b >> 1 | 1ull << 40));
    refused("dynamic width", "{0:{1}}", 1.5, static_cast<unsigned>(2147483648u + r.below(2000000000)));
    refused("dynamic width", "{0:{1}}", 1.5, -1 - static_cast<int>(r.below(100)));
    refused("dynamic width", "{0:{1}}", 1, -1ll - static_cast<long long>(r.below(1ull << 50)));
    refused("dynamic precision", "{:.{}}", 1.5, big);
    refused("dynamic precision", "{:.{}}", "text", static_cast<long long>(b >> 1 | 1ull << 40));
    refused("dynamic precision", "{0:.{1}f}", 1.5f, -1 - static_cast<int>(r.below(100)));
    // a width that is no integer
    refused("dynamic width kind", "{:{}}", 1, 2.0);
    refused("dynamic width kind", "{:{}}", 1, "3");
    refused("dynamic precision kind", "{:.{}}", 1.0, efp::String("3"));
    refused("missing", sf("{%d}", r.range(3, 100)), 1, 2, 3);
    refused("missing", sf("{0:{%d}}", r.range(3, 100)), 1, 2, 3);
}

// ------------------------------------------------------------------------------------------------
// the other entry points: joined ranges, pointers, numbers to text, user types, many arguments
struct Point { int x; double y; };
struct Celsius { double v; };

std::string text_of(const efp::String& s) { return std::string(s.data(), s.size()); }

// digits in groups, counted from the right; the last group length repeats
std::string grouped(const std::string& digits, const std::string& groups, char sep) {
    std::string out;
    size_t g = 0, left = groups.empty() ? 0 : static_cast<unsigned char>(groups[0]);
    for (size_t i = digits.size(); i > 0; --i) {
        if (!groups.empty() && left == 0) {
            out.insert(out.begin(), sep);
            if (g + 1 < groups.size()) ++g;
            left = static_cast<unsigned char>(groups[g]);
        }
        out.insert(out.begin(), digits[i - 1]);
        if (!groups.empty()) --left;
    }
    return out;
}

}  // namespace

template<> struct efp_fmt::formatter<Point> {
    bool swap = false;
    EFP_FMT_CONSTEXPR auto parse(efp_fmt::format_parse_context& ctx) -> efp_fmt::format_parse_context::iterator {
        auto it = ctx.begin();
        if (it != ctx.end() && *it == 's') { swap = true; ++it; }
        if (it != ctx.end() && *it != '}') throw efp_fmt::format_error("point");
        return it;
    }
    template<typename Ctx> auto format(const Point& p, Ctx& ctx) const -> decltype(ctx.out()) {
        return swap ? efp_fmt::format_to(ctx.out(), "({:.2f}; {})", p.y, p.x) : efp_fmt::format_to(ctx.out(), "({}; {:.2f})", p.x, p.y);
    }
};
template<> struct efp_fmt::formatter<Celsius> : efp_fmt::formatter<double> {
    template<typename Ctx> auto format(const Celsius& c, Ctx& ctx) const -> decltype(ctx.out()) {
        auto out = efp_fmt::formatter<double>::format(c.v, ctx);
        *out++ = 'C';
        return out;
    }
};

namespace {

template<typename T> void number_text(T v) {
    const std::string want = run_ref("{}", v).text;
    if (text_of(efp_fmt::to_string(v)) != want) violation("to_string of a number", want);
    mon::count("numbers to text");
}
template<typename T> void int_text(T v) {
    number_text(v);
    const efp_fmt::format_int f(v);
    const std::string want = std::to_string(v);
    if (std::string(f.data(), f.size()) != want || std::string(f.c_str()) != want || text_of(f.str()) != want) violation("format_int", want);
}

void facilities(Rng& r) {
    // digits in threes
    {
        const unsigned long long w = some_int<unsigned long long>(r);
        const Out a = run_efp("<{:>{}}>", efp_fmt::group_digits(w), 30), b = {false, "<" + [&] { const std::string g = grouped(std::to_string(w), "\3", ','); return std::string(g.size() < 30 ? 30 - g.size() : 0, ' ') + g; }() + ">"};
        judge("group_digits", sf("group_digits(%llu)", w), a, b);
    }
    // joined ranges with a presentation for each element
    {
        std::vector<int> v(r.below(8));
        std::list<double> d;
        std::string wi, wd;
        const std::string s = some_text(r);
        static const char* fi[] = {"{:04x}", "{}", "{:>5}", "{:+d}", "{:#b}"};
        static const char* fd[] = {"{:.3f}", "{}", "{:10.2e}", "{:+g}"};
        const std::string f1 = fi[r.below(5)], f2 = fd[r.below(4)];
        for (size_t i = 0; i < v.size(); ++i) {
            v[i] = r.range(-5000, 5000);
            d.push_back(v[i] / 16.0);
            wi += (i ? s : "") + run_ref(f1, v[i]).text;
            wd += (i ? s : "") + run_ref(f2, v[i] / 16.0).text;
        }
        const Out b1 = {false, wi}, b2 = {false, wd};
        const efp_fmt::string_view sv(s.data(), s.size());
        judge("join", f1, run_efp(f1, efp_fmt::join(v, sv)), b1);
        judge("join", f1, run_efp(f1, efp_fmt::join(v.begin(), v.end(), sv)), b1);
        judge("join", f2, run_efp(f2, efp_fmt::join(d, sv)), b2);
        efp::Vector<int> ev;
        for (int x : v) ev.push_back(x);
        judge("join", f1, run_efp(f1, efp_fmt::join(ev.begin(), ev.end(), sv)), b1);
        if (!run_efp("{:s}", efp_fmt::join(v, sv)).threw) violation("join", "{:s} of integers accepted");
        mon::count("joined ranges", 4);
    }
    // pointers
    {
        const std::unique_ptr<int> u(new int(1));
        const std::shared_ptr<int> s(new int(2));
        judge("pointer", "ptr", run_efp("{} {} {}", efp_fmt::ptr(u), efp_fmt::ptr(s), efp_fmt::ptr(u.get())), run_ref("{} {} {}", static_cast<const void*>(u.get()), static_cast<const void*>(s.get()), static_cast<const void*>(u.get())));
        const char* none = nullptr;
        static const char* fs[] = {"{}", "{:s}", "{:10}", "{:?}", "a{:.3}", "{:p}"};
        const char* f = fs[r.below(6)];
        const Out refusal = {true, ""}, zero = {false, "0x0"};
        judge("null text", f, run_efp(f, none), std::strchr(f, 'p') ? zero : refusal);
    }
    int_text(some_int<int>(r));
    int_text(some_int<unsigned>(r));
    int_text(some_int<long>(r));
    int_text(some_int<unsigned long>(r));
    int_text(some_int<long long>(r));
    int_text(some_int<unsigned long long>(r));
    number_text(some_float<double>(r));
    number_text(some_float<float>(r));
    number_text(r.chance(50));
    number_text(static_cast<char>(r.range(32, 126)));
    number_text(some_int<short>(r));
    // user types: own presentation, and that of a base formatter
    {
        const Point p = {r.range(-99, 99), r.range(-9999, 9999) / 8.0};
        const Celsius c = {r.range(-9999, 9999) / 32.0};
        const std::string a1 = sf("(%d; %.2f)", p.x, p.y), a2 = sf("(%.2f; %d)", p.y, p.x);
        const Out b = {false, a1 + a2 + sf("%8.3f", c.v) + "C" + a1};
        judge("user type", "{0}{0:s}{1:8.3f}{0:}", run_efp("{0}{0:s}{1:8.3f}{0:}", p, c), b);
        const Out b2 = {false, sf("%12.2fC|%-9.1fC", c.v, c.v)};
        judge("user type", "{0:{1}.{2}f}|{0:<9.1f}", run_efp("{0:{1}.{2}f}|{0:<9.1f}", c, 12, 2), b2);
        if (!run_efp("{:q}", p).threw || !run_efp("{:s", p).threw || !run_efp("{:d}", c).threw) violation("user type", "presentation of another type accepted");
        efp::Vector<Point> v;
        efp::ArrVec<Celsius, 3> w;
        std::string wv = "[", ww = "[";
        for (size_t i = r.below(4); i > 0; --i) {
            v.push_back(p);
            w.push_back(c);
            wv += (v.size() > 1 ? ", " : "") + a1;
            ww += (w.size() > 1 ? ", " : "") + run_ref("{}", c.v).text + "C";
        }
        const Out b3 = {false, wv + "]" + ww + "]"};
        judge("containers of user types", "{}{}", run_efp("{}{}", v, w), b3);
        mon::count("user types rendered", 3);
    }
    // more arguments than fit in the packed form, also by name
    {
        int v[20];
        for (size_t i = 0; i < 20; ++i) v[i] = r.range(-99999, 99999);
        std::string f, g;
        for (size_t i = 0; i < 25; ++i) { f += sf("{%d:%s}", static_cast<int>(r.below(r.chance(95) ? 20 : 24)), r.chance(50) ? "" : "8x"); }
        for (size_t i = 0; i < 20; ++i) g += r.chance(80) ? "{}," : "{:>6}";
        const std::string t = some_text(r);
        const efp::String et(t.c_str());
#define ARGS(N, T) v[0], v[1], v[2], 1.5, v[4], v[5], T, v[7], v[8], 'x', v[10], v[11], v[12], true, v[14], v[15], -2.25f, v[17], N::arg("wide", v[18]), N::arg("last", 7)
        judge("many arguments", f, run_efp(f, ARGS(efp_fmt, et)), run_ref(f, ARGS(fmt, t)));
        judge("many arguments", g, run_efp(g, ARGS(efp_fmt, et)), run_ref(g, ARGS(fmt, t)));
        static const char* nf[] = {"{wide}{last}", "{0:{last}}|{wide:>{last}}", "{6:{last}.{last}}", "{lost}", "{wid}", "{wider}", "{16:.{last}f}{19}", "{20}"};
        const char* h = nf[r.below(8)];
        judge("many arguments by name", h, run_efp(h, ARGS(efp_fmt, et)), run_ref(h, ARGS(fmt, t)));
#undef ARGS
        mon::count("many arguments", 3);
    }
}

// ------------------------------------------------------------------------------------------------
// containers: elements in order, comma separated, in brackets
template<typename C, typename G>
void container(const char* kind, const C& c, const std::vector<G>& elems) {
    std::string want = "[";
    for (size_t i = 0; i < elems.size(); ++i) {
        if (i) want += ", ";
        want += run_ref("{}", elems[i]).text;
    }
    want += "]";
    const Out b = {false, want};
    judge(kind, std::string(kind) + " {}", run_efp("{}", c), b);
    const Out b2 = {false, "x" + want + "{" + want + "7"};
    judge(kind, std::string(kind) + " between", run_efp("x{0}{{{0}{1}", c, 7), b2);
    const Out b3 = {false, want + want + want};
    const efp::String three = efp::format("{}{}{}", c, c, c);
    const Out a3 = {false, std::string(three.data(), three.size())};
    judge(kind, std::string(kind) + " thrice", a3, b3);
    if (!run_efp("{:d}", c).threw || !run_efp("{:5}", c).threw) violation("container spec", std::string(kind) + " accepts a presentation it ignores");
    mon::count("containers rendered");
}

template<typename T, typename G, typename Make, typename Ref>
void containers_of(Rng& r, const char* elem, const Make& make, const Ref& ref) {
    const size_t n = r.chance(20) ? 0 : r.chance(90) ? r.below(12) : r.below(400);
    std::vector<int> k(n);
    std::vector<G> want;
    for (size_t i = 0; i < n; ++i) { k[i] = static_cast<int>(r.next() & 0xffff); want.push_back(ref(k[i])); }
    mon::begin_case(sf("containers of %zu %s", n, elem));
    {
        efp::Vector<T> v;
        for (size_t i = 0; i < n; ++i) v.push_back(make(k[i]));
        container((std::string("Vector of ") + elem).c_str(), v, want);
    }
    {
        efp::ArrVec<T, 400> v;
        for (size_t i = 0; i < n; ++i) v.push_back(make(k[i]));
        container((std::string("ArrVec of ") + elem).c_str(), v, want);
    }
    {
        // a queue and a window that have wrapped around
        efp::Vcq<T, 5> q;
        efp::Vcb<T, 4> b;
        std::vector<G> qw, bw;
        for (size_t i = 0; i < 4; ++i) { b.push_back(make(static_cast<int>(i))); bw.push_back(ref(static_cast<int>(i))); }
        for (size_t i = 0; i < n; ++i) {
            q.push_back(make(k[i]));
            qw.push_back(ref(k[i]));
            if (qw.size() > 5) qw.erase(qw.begin());
            if (r.chance(20)) { q.pop_front(); qw.erase(qw.begin()); }
            b.push_back(make(k[i]));
            bw.push_back(ref(k[i]));
            bw.erase(bw.begin());
        }
        container((std::string("Vcq of ") + elem).c_str(), q, qw);
        container((std::string("Vcb of ") + elem).c_str(), b, bw);
    }
    {
        const int a = static_cast<int>(r.below(1000)), b = static_cast<int>(r.below(1000)), c = static_cast<int>(r.below(1000));
        std::vector<G> w;
        w.push_back(ref(a)); w.push_back(ref(b)); w.push_back(ref(c));
        container((std::string("Array of ") + elem).c_str(), efp::Array<T, 3> {make(a), make(b), make(c)}, w);
        w.resize(1);
        container((std::string("Array of one ") + elem).c_str(), efp::Array<T, 1> {make(a)}, w);
    }
}

void containers(Rng& r) {
    containers_of<int, int>(r, "int", [](int k) { return k - 30000; }, [](int k) { return k - 30000; });
    containers_of<unsigned char, unsigned char>(r, "unsigned char", [](int k) { return static_cast<unsigned char>(k); }, [](int k) { return static_cast<unsigned char>(k); });
    containers_of<double, double>(r, "double", [](int k) { return k / 7.0; }, [](int k) { return k / 7.0; });
    containers_of<float, float>(r, "float", [](int k) { return k / 3.0f; }, [](int k) { return k / 3.0f; });
    containers_of<long long, long long>(r, "long long", [](int k) { return k * 1000000007ll; }, [](int k) { return k * 1000000007ll; });
    containers_of<bool, bool>(r, "bool", [](int k) { return k % 2 == 0; }, [](int k) { return k % 2 == 0; });

    containers_of<efp::String, std::string>(r, "String", [](int k) { return efp::String(("s" + std::to_string(k)).c_str()); }, [](int k) { return "s" + std::to_string(k); });
    // nested
    mon::begin_case("nested containers");
    efp::Vector<efp::Array<int, 2>> v;
    efp::Array<efp::Vector<int>, 2> a;
    std::string wv = "[", wa0 = "[", wa1 = "[";
    const size_t n = r.below(6);
    for (size_t i = 0; i < n; ++i) {
        const int x = r.range(-99, 99), y = r.range(-99, 99);
        v.push_back(efp::Array<int, 2> {x, y});
        a[0].push_back(x);
        a[1].push_back(y);
        wv += sf("%s[%d, %d]", i ? ", " : "", x, y);
        wa0 += sf("%s%d", i ? ", " : "", x);
        wa1 += sf("%s%d", i ? ", " : "", y);
    }
    const Out b1 = {false, wv + "]"}, b2 = {false, "[" + wa0 + "], " + wa1 + "]]"};
    judge("nested", "Vector of Array", run_efp("{}", v), b1);
    judge("nested", "Array of Vector", run_efp("{}", a), b2);
}

// ------------------------------------------------------------------------------------------------
// standard output, captured
class Capture {
public:
    explicit Capture(const std::string& path) : _path(path) {
        std::fflush(stdout);
        _old = ::dup(1);
        const int f = ::open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
        if (_old < 0 || f < 0 || ::dup2(f, 1) < 0) mon::harness_error("capture");
        ::close(f);
    }
    std::string text() {
        std::fflush(stdout);
        ::dup2(_old, 1);
        ::close(_old);
        std::string s;
        FILE* f = std::fopen(_path.c_str(), "rb");
        char buf[65536];
        for (size_t n; f && (n = std::fread(buf, 1, sizeof buf, f)) > 0;) s.append(buf, n);
        if (f) std::fclose(f);
        ::unlink(_path.c_str());
        return s;
    }
private:
    std::string _path;
    int _old;
};

template<typename... As>
void print_one(const std::string& path, const std::string& f, const As&... as) {
    const Out want = run_efp(f, as...);
    const efp_fmt::string_view fv(f.data(), f.size());
    std::string got[2];
    bool threw[2] = {false, false};
    {
        Capture c(path);
        try { efp::print(efp_fmt::runtime(fv), as...); } catch (const efp_fmt::format_error&) { threw[0] = true; }
        got[0] = c.text();
    }
    {
        Capture c(path);
        try { efp::println(efp_fmt::runtime(fv), as...); } catch (const efp_fmt::format_error&) { threw[1] = true; }
        got[1] = c.text();
    }
    mon::count("printed texts captured", 2);
    const std::string w0 = want.threw ? "" : want.text, w1 = want.threw ? "" : want.text + "\n";
    if (threw[0] != want.threw || got[0] != w0) violation("print", vis(f) + " printed \"" + vis(got[0]) + "\", expected " + shown(want));
    if (threw[1] != want.threw || got[1] != w1) violation("println", vis(f) + " printed \"" + vis(got[1]) + "\", expected " + shown(want));
}

void printing(Rng& r, size_t n) {
    const char* dir = std::getenv("VERIF_WORK");
    const std::string path = std::string(dir ? dir : "/tmp") + sf("/c13.%d.out", static_cast<int>(::getpid()));
    static const char* fs[] = {"{} {} {}", "", "{0:>10}|{1:x}|{2}", "{2}{2}{{}}", "no fields", "{0:*^{1}}", "{0", "{3}", "{}{}{}{}", "{:d}", "\n{}\n{}\n{}\n", "{0:.2f}", "{1:#06x}\t{0}"};
    for (size_t k = 0; k < n; ++k) {
        mon::begin_case("printing");
        const std::string t = some_text(r) + (r.chance(5) ? std::string(70000, 'z') : "");
        const efp::String es(t.c_str());
        print_one(path, fs[r.below(13)], some_float<double>(r), r.range(0, 60), es);
        print_one(path, fs[r.below(13)], r.range(-5, 5), r.range(0, 60), t.c_str());
        efp::Vector<int> v;
        for (size_t i = r.below(50); i > 0; --i) v.push_back(r.range(-9, 9));
        print_one(path, fs[r.below(5)], v, r.range(0, 60), es);
        // checked at compile time, several calls in a row keep their order
        const int x = r.range(-1000, 1000);
        Capture c(path);
        efp::print("a{:>5}", x);
        efp::println("b{}", es);
        efp::print("{0}{0:+}", x);
        efp::println("");
        efp::println("{}", v);
        const std::string got = c.text();
        std::string want = sf("a%5d", x) + "b" + t + "\n" + sf("%d%+d", x, x) + "\n[";
        for (size_t i = 0; i < v.size(); ++i) want += sf("%s%d", i ? ", " : "", v[i]);
        want += "]\n";
        if (got != want) violation("print order", "printed \"" + vis(got) + "\", expected \"" + vis(want) + "\"");
    }
}

}  // namespace

int main(int argc, char** argv) {
    mon::init(argc, argv);
    Rng r(mon::st().seed);
    for (size_t i = 0; i < mon::scaled(300); ++i) { mon::begin_case("fields"); scalar_fields(r); }
    for (size_t i = 0; i < mon::scaled(1500); ++i) {
        mon::begin_case("numbers");
        against_c_library<float>(r, some_float<float>(r));
        against_c_library<double>(r, some_float<double>(r));
        if (wide_long_double()) against_c_library<long double>(r, some_float<long double>(r));
        integers_against_c(r);
    }
    for (size_t i = 0; i < mon::scaled(100); ++i) { mon::begin_case("out of range"); out_of_range(r); }
    for (size_t i = 0; i < mon::scaled(150); ++i) { mon::begin_case("other entry points"); facilities(r); }
    whole_strings(r, mon::scaled(1000));
    for (size_t i = 0; i < mon::scaled(60); ++i) containers(r);
    printing(r, mon::scaled(60));
    return mon::finish();
}
