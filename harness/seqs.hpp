// Every kind of sequence, built from a list of ints in hostile storage.
#ifndef VERIF_SEQS_HPP_
#define VERIF_SEQS_HPP_

#include <array>
#include <memory>

#include "efp.hpp"
#include "mon.hpp"

namespace user {
// sequences that provide the trait functions and nothing else
template<typename A, size_t n> struct Fixed { std::unique_ptr<A[]> p; };
template<typename A, size_t cap> struct Bounded { std::unique_ptr<A[]> p; size_t n; };
template<typename A> struct Open { std::unique_ptr<A[]> p; size_t n; };

template<typename A, size_t n> efp::Size<n> length(const Fixed<A, n>&) { return efp::Size<n>{}; }
template<typename A, size_t n> const A& nth(size_t i, const Fixed<A, n>& s) { return s.p[i]; }
template<typename A, size_t n> A& nth(size_t i, Fixed<A, n>& s) { return s.p[i]; }
template<typename A, size_t n> const A* data(const Fixed<A, n>& s) { return s.p.get(); }
template<typename A, size_t n> A* data(Fixed<A, n>& s) { return s.p.get(); }

template<typename A, size_t n> size_t length(const Bounded<A, n>& s) { return s.n; }
template<typename A, size_t n> const A& nth(size_t i, const Bounded<A, n>& s) { return s.p[i]; }
template<typename A, size_t n> A& nth(size_t i, Bounded<A, n>& s) { return s.p[i]; }
template<typename A, size_t n> const A* data(const Bounded<A, n>& s) { return s.p.get(); }
template<typename A, size_t n> A* data(Bounded<A, n>& s) { return s.p.get(); }

template<typename A> size_t length(const Open<A>& s) { return s.n; }
template<typename A> const A& nth(size_t i, const Open<A>& s) { return s.p[i]; }
template<typename A> A& nth(size_t i, Open<A>& s) { return s.p[i]; }
template<typename A> const A* data(const Open<A>& s) { return s.p.get(); }
template<typename A> A* data(Open<A>& s) { return s.p.get(); }
}  // namespace user

namespace efp {
template<typename A, size_t n> struct ElementImpl<user::Fixed<A, n>> { using Type = A; };
template<typename A, size_t n> struct CtSizeImpl<user::Fixed<A, n>> { using Type = Size<n>; };
template<typename A, size_t n> struct CtCapacityImpl<user::Fixed<A, n>> { using Type = Size<n>; };
template<typename A, size_t n> struct ElementImpl<user::Bounded<A, n>> { using Type = A; };
template<typename A, size_t n> struct CtSizeImpl<user::Bounded<A, n>> { using Type = Size<dyn>; };
template<typename A, size_t n> struct CtCapacityImpl<user::Bounded<A, n>> { using Type = Size<n>; };
template<typename A> struct ElementImpl<user::Open<A>> { using Type = A; };
template<typename A> struct CtSizeImpl<user::Open<A>> { using Type = Size<dyn>; };
template<typename A> struct CtCapacityImpl<user::Open<A>> { using Type = Size<dyn>; };
}  // namespace efp

namespace mon {

typedef std::vector<int> Model;
static const size_t DYN = ~static_cast<size_t>(0);

// A source of length n for element type A in an exactly sized heap block
template<typename A>
struct Block {
    std::unique_ptr<A[]> p;
    explicit Block(const Model& m) : p(new A[m.size()]) { for (size_t i = 0; i < m.size(); ++i) p[i] = Val<A>::make(m[i]); }
};

#define SEQ_HEAD(S, size_, cap_, mutable_)                                  \
    typedef S Seq;                                                          \
    typedef A Elem;                                                         \
    enum : size_t { ct_size = size_, ct_cap = cap_ };                       \
    enum : bool { mut = mutable_, owns = true };                            \
    static bool fits(size_t len) { return ct_size != DYN ? len == ct_size : len <= ct_cap; } \
    Slot<Seq> slot;                                                         \
    Seq& seq() { return *slot; }                                            \
    const Seq& cseq() { return *slot; }

#define COMMA ,

template<typename A, size_t n> struct KArray {
    SEQ_HEAD(efp::Array<A COMMA n>, n, n, true)
    static std::string name() { return sf("Array<%s,%zu>", Val<A>::name(), n); }
    KArray(const Model& m, Rng& r) { slot.adopt(new (slot.fresh(static_cast<unsigned char>(r.next()))) Seq()); for (size_t i = 0; i < n; ++i) seq()[i] = Val<A>::make(m[i]); }
};
template<typename A, size_t c> struct KArrVec {
    SEQ_HEAD(efp::ArrVec<A COMMA c>, DYN, c, true)
    static std::string name() { return sf("ArrVec<%s,%zu>", Val<A>::name(), c); }
    KArrVec(const Model& m, Rng& r) { slot.adopt(new (slot.fresh(static_cast<unsigned char>(r.next()))) Seq()); for (size_t i = 0; i < m.size(); ++i) seq().push_back(Val<A>::make(m[i])); }
};
template<typename A> struct KVector {
    SEQ_HEAD(efp::Vector<A>, DYN, DYN, true)
    static std::string name() { return sf("Vector<%s>", Val<A>::name()); }
    KVector(const Model& m, Rng& r) {
        slot.adopt(new (slot.fresh(static_cast<unsigned char>(r.next()))) Seq());
        if (r.chance(50)) seq().reserve(m.size());
        for (size_t i = 0; i < m.size(); ++i) seq().push_back(Val<A>::make(m[i]));
        if (r.chance(30)) seq().shrink_to_fit();
    }
};
template<typename A, size_t n> struct KArrayView {
    SEQ_HEAD(efp::ArrayView<A COMMA n>, n, n, false)
    Block<A> b;
    static std::string name() { return sf("ArrayView<%s,%zu>", Val<A>::name(), n); }
    KArrayView(const Model& m, Rng&) : b(m) { slot.make(0x77, b.p.get(), n); }
};
template<typename A, size_t c> struct KArrVecView {
    SEQ_HEAD(efp::ArrVecView<A COMMA c>, DYN, c, false)
    Block<A> b;
    static std::string name() { return sf("ArrVecView<%s,%zu>", Val<A>::name(), c); }
    KArrVecView(const Model& m, Rng&) : b(m) { slot.make(0x77, b.p.get(), m.size()); }
};
template<typename A> struct KVectorView {
    SEQ_HEAD(efp::VectorView<A>, DYN, DYN, false)
    Block<A> b;
    static std::string name() { return sf("VectorView<%s>", Val<A>::name()); }
    KVectorView(const Model& m, Rng&) : b(m) { slot.make(0x77, static_cast<const A*>(b.p.get()), m.size()); }
};
// views made from other views
template<typename A, size_t n, size_t c> struct KBoundedOfFixed {
    SEQ_HEAD(efp::ArrVecView<A COMMA c>, DYN, c, false)
    Block<A> b;
    static std::string name() { return sf("ArrVecView<%s,%zu> of ArrayView<%zu>", Val<A>::name(), c, n); }
    KBoundedOfFixed(const Model& m, Rng&) : b(m) { slot.make(0x77, efp::ArrayView<A, n>(b.p.get(), n)); }
};
template<typename A, size_t n> struct KOpenOfFixed {
    SEQ_HEAD(efp::VectorView<A>, DYN, DYN, false)
    Block<A> b;
    static std::string name() { return sf("VectorView<%s> of ArrayView<%zu>", Val<A>::name(), n); }
    KOpenOfFixed(const Model& m, Rng&) : b(m) { slot.make(0x77, efp::ArrayView<A, n>(b.p.get(), n)); }
};
template<typename A, size_t c> struct KOpenOfBounded {
    SEQ_HEAD(efp::VectorView<A>, DYN, DYN, false)
    Block<A> b;
    static std::string name() { return sf("VectorView<%s> of ArrVecView<%zu>", Val<A>::name(), c); }
    KOpenOfBounded(const Model& m, Rng&) : b(m) { slot.make(0x77, efp::ArrVecView<A, c>(b.p.get(), m.size())); }
};
template<typename A> struct KConstView {  // a view of constant elements
    SEQ_HEAD(efp::VectorView<const A>, DYN, DYN, false)
    Block<A> b;
    static std::string name() { return sf("VectorView<const %s>", Val<A>::name()); }
    KConstView(const Model& m, Rng&) : b(m) { slot.make(0x77, static_cast<const A*>(b.p.get()), m.size()); }
};
template<typename A, size_t n> struct KVcb {
    SEQ_HEAD(efp::Vcb<A COMMA n>, n, n, true)
    static std::string name() { return sf("Vcb<%s,%zu>", Val<A>::name(), n); }
    KVcb(const Model& m, Rng& r) {
        slot.adopt(new (slot.fresh(static_cast<unsigned char>(r.next()))) Seq());
        for (size_t k = r.below(2 * n + 1); k > 0; --k) seq().push_back(Val<A>::make(77));
        for (size_t i = 0; i < n; ++i) seq().push_back(Val<A>::make(m[i]));
    }
};
template<typename A, size_t c> struct KVcq {
    SEQ_HEAD(efp::Vcq<A COMMA c>, DYN, c, true)
    static std::string name() { return sf("Vcq<%s,%zu>", Val<A>::name(), c); }
    KVcq(const Model& m, Rng& r) {
        slot.adopt(new (slot.fresh(static_cast<unsigned char>(r.next()))) Seq());
        for (size_t k = r.below(2 * c + 1); k > 0; --k) { seq().push_back(Val<A>::make(77)); seq().pop_front(); }
        for (size_t i = 0; i < m.size(); ++i) seq().push_back(Val<A>::make(m[i]));
    }
};
template<typename A, size_t n> struct KStdArray {
    SEQ_HEAD(std::array<A COMMA n>, n, n, true)
    static std::string name() { return sf("std::array<%s,%zu>", Val<A>::name(), n); }
    KStdArray(const Model& m, Rng&) { slot.adopt(new (slot.fresh(0x33)) Seq()); for (size_t i = 0; i < n; ++i) seq()[i] = Val<A>::make(m[i]); }
};
template<typename A> struct KStdVector {
    SEQ_HEAD(std::vector<A>, DYN, DYN, true)
    static std::string name() { return sf("std::vector<%s>", Val<A>::name()); }
    KStdVector(const Model& m, Rng&) { slot.make(0x33, m.size()); for (size_t i = 0; i < m.size(); ++i) seq()[i] = Val<A>::make(m[i]); }
};
template<typename A, size_t n> struct KFixed {
    SEQ_HEAD(user::Fixed<A COMMA n>, n, n, true)
    static std::string name() { return sf("user::Fixed<%s,%zu>", Val<A>::name(), n); }
    KFixed(const Model& m, Rng&) { slot.adopt(new (slot.fresh(0x33)) Seq{std::move(Block<A>(m).p)}); }
};
template<typename A, size_t c> struct KBounded {
    SEQ_HEAD(user::Bounded<A COMMA c>, DYN, c, true)
    static std::string name() { return sf("user::Bounded<%s,%zu>", Val<A>::name(), c); }
    KBounded(const Model& m, Rng&) { slot.adopt(new (slot.fresh(0x33)) Seq{std::move(Block<A>(m).p), m.size()}); }
};
template<typename A> struct KOpen {
    SEQ_HEAD(user::Open<A>, DYN, DYN, true)
    static std::string name() { return sf("user::Open<%s>", Val<A>::name()); }
    KOpen(const Model& m, Rng&) { slot.adopt(new (slot.fresh(0x33)) Seq{std::move(Block<A>(m).p), m.size()}); }
};
struct KString {
    typedef char A;
    SEQ_HEAD(efp::String, DYN, DYN, true)
    static std::string name() { return "String"; }
    KString(const Model& m, Rng& r) { slot.adopt(new (slot.fresh(static_cast<unsigned char>(r.next()))) Seq()); for (size_t i = 0; i < m.size(); ++i) seq().push_back(Val<A>::make(m[i])); }
};
struct KStringView {
    typedef char A;
    SEQ_HEAD(efp::StringView, DYN, DYN, false)
    Block<char> b;
    static std::string name() { return "StringView"; }
    KStringView(const Model& m, Rng&) : b(m) { slot.make(0x77, static_cast<const char*>(b.p.get()), m.size()); }
};
struct KStdString {
    typedef char A;
    SEQ_HEAD(std::string, DYN, DYN, true)
    static std::string name() { return "std::string"; }
    KStdString(const Model& m, Rng&) { slot.adopt(new (slot.fresh(0x33)) Seq(m.size(), 'x')); for (size_t i = 0; i < m.size(); ++i) seq()[i] = Val<A>::make(m[i]); }
};

// a random list that kind K can hold
// lengths a kind admits beyond what its type says
template<typename K> struct Admits { static size_t pick(size_t n, Rng&) { return n; } };
template<typename A, size_t n, size_t c> struct Admits<KBoundedOfFixed<A, n, c>> { static size_t pick(size_t, Rng&) { return n; } };
template<typename A, size_t n> struct Admits<KOpenOfFixed<A, n>> { static size_t pick(size_t, Rng&) { return n; } };
template<typename A, size_t c> struct Admits<KOpenOfBounded<A, c>> { static size_t pick(size_t, Rng& r) { return r.below(c + 1); } };
template<typename K>
Model list_for(Rng& r, size_t big = 40) {
    size_t n;
    if (K::ct_size != DYN) n = K::ct_size;
    else if (K::ct_cap != DYN) n = r.below(K::ct_cap + 1);
    else n = r.chance(20) ? r.below(3) : r.below(big + 1);
    n = Admits<K>::pick(n, r);
    Model m(n);
    const int span = r.chance(30) ? 3 : 99;
    for (size_t i = 0; i < n; ++i) m[i] = r.range(1, span);
    return m;
}

// the elements a sequence shows through the trait functions
template<typename S>
Model shown(const S& s) {
    using efp::length;
    using efp::nth;
    Model m;
    const size_t n = static_cast<size_t>(length(s));
    for (size_t i = 0; i < n && i < 100000; ++i) m.push_back(Val<typename std::remove_cv<efp::Element<S>>::type>::get(nth(i, s)));
    return m;
}

template<size_t... is> struct Idx {};
template<size_t n, size_t... is> struct MkIdx : MkIdx<n - 1, n - 1, is...> {};
template<size_t... is> struct MkIdx<0, is...> { typedef Idx<is...> type; };

template<typename... Ts> struct List {};

}  // namespace mon

#endif
