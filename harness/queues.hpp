// Workloads shared by C15 and C16.
#ifndef VERIF_QUEUES_HPP_
#define VERIF_QUEUES_HPP_
#include <algorithm>

#include "efp.hpp"
#include "conc.hpp"

using namespace mon;
using conc::Ev;
using conc::Item;
using conc::now;
using conc::Noisy;

enum { ENQ, DEQ, EMPTY };
static const char* const NAMES[] = {"enqueue", "dequeue", "is_empty"};
static const uint64_t NOTHING = 1ull << 60;

// sequential FIFO; at capacity an enqueue replaces the oldest
struct Fifo {
    size_t cap;      // 0: unbounded
    typedef std::deque<uint64_t> State;
    State initial() const { return State(); }
    bool apply(State& q, const Ev& e) const {
        switch (e.kind) {
        case ENQ:
            if (cap && q.size() == cap) q.pop_front();
            q.push_back(e.arg);
            return true;
        case DEQ:
            if (q.empty()) return e.ret == NOTHING;
            if (e.ret != q.front()) return false;
            q.pop_front();
            return true;
        default:
            return (e.ret != 0) == q.empty();
        }
    }
    std::string key(const State& q) const {
        std::string s;
        for (size_t i = 0; i < q.size(); ++i) { s += std::to_string(q[i]); s += ','; }
        return s;
    }
};

// hand the memory of every queue out pre-filled and exactly sized
template<typename Q>
struct Box {
    Slot<Q> s;
    explicit Box(unsigned char fill) { s.make(fill); }
    Q& operator*() { return *s; }
    Q* operator->() { return &*s; }
};

template<typename Q>
void judge_history(const char* what, size_t cap, const std::vector<std::vector<Ev>>& per) {
    std::vector<Ev> all;
    for (size_t i = 0; i < per.size(); ++i) all.insert(all.end(), per[i].begin(), per[i].end());
    seen(mix(conc::shape(all), cap * 7 + std::hash<std::string>()(what)));
    if (conc::overlapping(all)) count("histories with overlapping operations");
    for (size_t i = 0; i < all.size(); ++i)
        if (all[i].kind == DEQ && all[i].ret == NOTHING) { count("histories with an empty answer"); break; }
    Fifo spec = {cap};
    conc::Linearizer<Fifo> l(spec, all);
    const int r = l.check();
    if (r < 0) count("histories given up");
    else count("histories checked for linearizability");
    if (r == 0) violation(std::string("not-linearizable:") + what, conc::show(all, NAMES));
    if (all.size() > 5 && conc::overlapping(all)) sample(std::string(what) + conc::show(all, NAMES));
}

#endif
