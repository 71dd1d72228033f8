// C02: lifetimes and memory of elements of Vector, ArrVec, Array.
#include "seqhist.hpp"

int main(int argc, char** argv) {
    using namespace seqhist;
    using efp::Array; using efp::ArrVec; using efp::Vector;
    mon::init(argc, argv);
    mon::heap_install();
    campaign<Vector<Tracked>, true, true>(500, 60, false, 1);
    campaign<Vector<CopyOnly>, true, true>(200, 60, false, 2);
    campaign<Vector<MoveOnly>, false, true>(200, 60, false, 3);
    campaign<Vector<std::string>, true, true>(100, 60, false, 4);
    campaign<ArrVec<Tracked, 1>, true, true>(80, 40, false, 5);
    campaign<ArrVec<Tracked, 4>, true, true>(200, 60, false, 6);
    campaign<ArrVec<Tracked, 11>, true, true>(200, 60, false, 7);
    campaign<ArrVec<CopyOnly, 6>, true, true>(150, 60, false, 8);
    campaign<ArrVec<MoveOnly, 6>, false, true>(150, 60, false, 9);
    campaign<ArrVec<Aligned<64>, 3>, true, true>(100, 60, false, 10);
    campaign<ArrVec<std::string, 5>, true, true>(60, 60, false, 11);
    campaign<Array<Tracked, 1>, true, true>(60, 40, false, 12);
    campaign<Array<Tracked, 4>, true, true>(150, 40, false, 13);
    campaign<Array<CopyOnly, 3>, true, true>(80, 40, false, 14);
    campaign<Array<MoveOnly, 3>, false, true>(80, 40, false, 15);
    campaign<Array<Aligned<32>, 3>, true, true>(80, 40, false, 16);
#if __cplusplus >= 201703L
    campaign<Vector<Aligned<64>>, true, true>(100, 60, false, 17);
#else
    campaign<Vector<Aligned<16>>, true, true>(100, 60, false, 17);
#endif
    campaign<Vector<Tracked, MonAlloc<Tracked>>, true, true>(200, 60, false, 18);
    campaign<Vector<int, MonAlloc<int>>, true, true>(100, 60, false, 19);
    campaign<Vector<MoveOnly, MonAlloc<MoveOnly>>, false, true>(60, 60, false, 20);
    campaign<Vector<Tracked>, true, true>(10, 40, false, 30, 700);
    campaign<ArrVec<Tracked, 300>, true, true>(10, 40, false, 31, 320);
    campaign<Array<Tracked, 300>, true, true>(4, 30, false, 32);
    mon::Ledger::get().expect_empty("all histories");
    mon::count("blocks taken from a monitored allocator", mon::Ledger::get().allocations);
    mon::count("element lifetime events", mon::Life::events());
    mon::sample("last history: " + mon::tag());
    return mon::finish();
}
