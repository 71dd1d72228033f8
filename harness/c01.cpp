// C01: Vector, ArrVec, Array against a list model.
#include "seqhist.hpp"

namespace mon {
template<> struct Val<efp::String> {
    static efp::String make(int v) { return efp::String(("text of element " + std::to_string(v)).c_str()); }
    static int get(const efp::String& t) {
        const std::string s = std::string(t.data(), t.size());
        return s.empty() ? 0 : (s.size() > 16 ? std::atoi(s.c_str() + 16) : -1);
    }
    static void set(efp::String& t, int v) { t = make(v); }
    static const char* name() { return "String"; }
    static int fresh() { return 0; }
};
template<> struct Val<efp::Vector<int>> {
    static efp::Vector<int> make(int v) { efp::Vector<int> r; for (int i = 0; i <= v % 5; ++i) r.push_back(v); return r; }
    static int get(const efp::Vector<int>& t) {
        if (t.size() == 0) return 0;
        for (size_t i = 0; i < t.size(); ++i) if (t[i] != t[0]) return -1;
        return t.size() == static_cast<size_t>(t[0] % 5 + 1) ? t[0] : -2;
    }
    static void set(efp::Vector<int>& t, int v) { t = make(v); }
    static const char* name() { return "Vector<int>"; }
    static int fresh() { return 0; }
};
}

int main(int argc, char** argv) {
    using namespace seqhist;
    using efp::Array; using efp::ArrVec; using efp::Vector;
    mon::init(argc, argv);
    mon::heap_install();
    const bool nested_eq = true;
    campaign<Vector<int>, true, true>(500, 60, true, 1);
    campaign<Vector<std::string>, true, true>(250, 60, true, 2);
    campaign<Vector<Odd>, true, true>(150, 60, true, 3);
    campaign<Vector<efp::String>, true, nested_eq>(150, 60, true, 4);
    campaign<Vector<Vector<int>>, true, nested_eq>(150, 60, true, 5);
    campaign<Vector<double>, true, true>(100, 60, true, 6);
    campaign<ArrVec<int, 1>, true, true>(80, 40, true, 7);
    campaign<ArrVec<int, 3>, true, true>(150, 60, true, 8);
    campaign<ArrVec<int, 8>, true, true>(250, 60, true, 9);
    campaign<ArrVec<std::string, 5>, true, true>(150, 60, true, 10);
    campaign<ArrVec<uint8_t, 16>, true, true>(100, 60, true, 11);
    campaign<ArrVec<Odd, 21>, true, true>(100, 60, true, 12);
    campaign<ArrVec<Vector<int>, 4>, true, nested_eq>(80, 60, true, 13);
    campaign<Array<int, 1>, true, true>(60, 40, true, 14);
    campaign<Array<int, 4>, true, true>(100, 40, true, 15);
    campaign<Array<std::string, 3>, true, true>(100, 40, true, 16);
    campaign<Array<Odd, 7>, true, true>(60, 40, true, 17);
    campaign<Array<Vector<int>, 2>, true, nested_eq>(60, 40, true, 18);
    // lengths that do not fit in 8 or 16 bits
    campaign<Vector<int>, true, true>(20, 40, true, 30, 1500);
    campaign<Vector<std::string>, true, true>(6, 40, true, 31, 700);
    campaign<ArrVec<int, 300>, true, true>(20, 40, true, 32, 320);
    campaign<ArrVec<Odd, 1000>, true, true>(8, 40, true, 33, 1100);
    campaign<Array<int, 500>, true, true>(6, 30, true, 34);
    if (!mon::slow()) {
        campaign<Vector<uint8_t>, true, true>(2, 30, true, 35, 100000);
        campaign<ArrVec<uint8_t, 70000>, true, true>(2, 30, true, 36, 71000);
    }
    mon::sample("last history: " + mon::tag());
    return mon::finish();
}
