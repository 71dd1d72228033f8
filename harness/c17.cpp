// C17: DoubleBuffer under threads.
#include "queues.hpp"

namespace {
enum { B_ENQ, B_SWAP, B_DEQ, B_EMPTY };
const char* const BNAMES[] = {"enqueue", "swap_buffer", "dequeue", "empty"};

// write side and read side; dequeue is only called on a non-empty read side
struct Two {
    size_t cap;
    struct State { std::deque<uint64_t> w, r; };
    State initial() const { return State(); }
    bool apply(State& s, const Ev& e) const {
        switch (e.kind) {
        case B_ENQ:
            if (s.w.size() == cap) s.w.pop_front();
            s.w.push_back(e.arg);
            return true;
        case B_SWAP:
            s.w.swap(s.r);
            return true;
        case B_DEQ:
            if (s.r.empty() || s.r.front() != e.ret) return false;
            s.r.pop_front();
            return true;
        default:
            return (e.ret != 0) == s.r.empty();
        }
    }
    std::string key(const State& s) const {
        std::string k;
        for (size_t i = 0; i < s.w.size(); ++i) { k += std::to_string(s.w[i]); k += ','; }
        k += '|';
        for (size_t i = 0; i < s.r.size(); ++i) { k += std::to_string(s.r[i]); k += ','; }
        return k;
    }
};
}  // namespace

template<typename T, size_t cap>
struct Drive {
    typedef efp::DoubleBuffer<T, cap> Q;
    static std::string label() { return sf("DoubleBuffer<%s,%zu>", Item<T>::name(), cap); }

    static void short_histories(conc::Pool& pool, Rng& r, size_t rounds) {
        const std::string what = label();
        for (size_t n = 0; n < rounds; ++n) {
            begin_case(what + sf(" short round %zu", n));
            const size_t threads = 2 + r.below(pool.size() - 1);
            std::vector<size_t> plan(pool.size());
            for (size_t k = 1 + r.below(10); k > 0; --k) ++plan[1 + r.below(threads - 1)];
            const size_t swaps = 1 + r.below(3);
            Box<Q> q(static_cast<unsigned char>(r.next()));
            std::vector<std::vector<Ev>> per(pool.size());
            const unsigned pct = static_cast<unsigned>(r.below(60));
            const uint64_t base = n * 10000;
            for (size_t t = 0; t < pool.size(); ++t) per[t].reserve(64);
            for (size_t k = r.below(3); k > 0; --k) {
                Ev e;
                e.kind = B_ENQ;
                e.thread = 0;
                e.arg = base + 5000 + k;
                e.ret = 0;
                const T v = Item<T>::make(e.arg);
                e.inv = now();
                q->enqueue(v);
                e.resp = now();
                per[0].push_back(e);
            }
            const bool late_final = r.chance(50);
            std::atomic<bool> runaway(false);
            auto reader = [&](size_t times) {
                for (size_t k = 0; k < times; ++k) {
                    Ev e;
                    e.thread = 0;
                    e.arg = e.ret = 0;
                    e.kind = B_SWAP;
                    e.inv = now();
                    q->swap_buffer();
                    e.resp = now();
                    per[0].push_back(e);
                    conc::delay().maybe();
                    for (size_t guard = 0;; ++guard) {
                        if (guard > cap + 1) { runaway = true; return; }
                        e.kind = B_EMPTY;
                        e.inv = now();
                        const bool b = q->empty();
                        e.resp = now();
                        e.ret = b;
                        per[0].push_back(e);
                        if (b) break;
                        e.kind = B_DEQ;
                        e.inv = now();
                        const T v = q->dequeue();
                        e.resp = now();
                        e.ret = Item<T>::get(v);
                        per[0].push_back(e);
                        conc::delay().maybe();
                    }
                }
            };
            pool.run([&](size_t t) {
                conc::delay().percent = pct;
                if (t == 0) { reader(swaps); return; }
                for (size_t k = 0; k < plan[t]; ++k) {
                    Ev e;
                    e.kind = B_ENQ;
                    e.thread = static_cast<int>(t);
                    e.arg = base + t * 100 + k + 1;
                    e.ret = 0;
                    const T v = Item<T>::make(e.arg);
                    e.inv = now();
                    q->enqueue(v);
                    e.resp = now();
                    per[t].push_back(e);
                    conc::delay().maybe();
                }
            });
            if (late_final) reader(2);
            if (runaway) { violation("runaway:" + what, "the read side holds more than the capacity"); continue; }
            std::vector<Ev> all;
            for (size_t i = 0; i < per.size(); ++i) all.insert(all.end(), per[i].begin(), per[i].end());
            if (all.size() > 60) { count("histories too long to check"); continue; }
            seen(mix(conc::shape(all), cap * 7 + std::hash<std::string>()(what)));
            if (conc::overlapping(all)) { count("histories with overlapping operations"); sample(what + conc::show(all, BNAMES)); }
            Two spec = {cap};
            conc::Linearizer<Two> l(spec, all);
            const int v = l.check();
            count(v < 0 ? "histories given up" : "histories checked for linearizability");
            if (v == 0) violation("not-linearizable:" + what, conc::show(all, BNAMES));
            count("short rounds");
        }
    }

    // never more than the capacity between two swaps: exactly once, in order
    static void stream(conc::Pool& pool, Rng& r, size_t per_producer) {
        const std::string what = label();
        begin_case(what + " stream");
        const size_t producers = pool.size() - 1, total = producers * per_producer;
        Box<Q> q(static_cast<unsigned char>(r.next()));
        std::vector<uint64_t> got;
        got.reserve(total);
        std::atomic<int64_t> credit(static_cast<int64_t>(cap));
        std::atomic<size_t> producing(producers);
        const unsigned pct = static_cast<unsigned>(r.below(8));
        size_t swaps = 0, biggest = 0;
        std::atomic<bool> runaway(false);
        pool.run([&](size_t t) {
            conc::delay().percent = pct;
            if (t > 0) {
                for (size_t k = 0; k < per_producer; ++k) {
                    while (credit.fetch_sub(1, std::memory_order_relaxed) <= 0) {
                        credit.fetch_add(1, std::memory_order_relaxed);
                        ::sched_yield();
                        if (runaway.load(std::memory_order_relaxed)) break;
                    }
                    q->enqueue(Item<T>::make((static_cast<uint64_t>(t - 1) << 32) + k));
                    if (k % 64 == 0) conc::step();
                }
                producing.fetch_sub(1, std::memory_order_acq_rel);
            } else {
                for (;;) {
                    const bool last = producing.load(std::memory_order_acquire) == 0;
                    q->swap_buffer();
                    ++swaps;
                    size_t k = 0;
                    while (!q->empty()) {
                        const T v = q->dequeue();
                        got.push_back(Item<T>::get(v));
                        if (++k > cap) { runaway = true; return; }
                    }
                    biggest = std::max(biggest, k);
                    // a value taken out frees a place only after the next swap has happened, so give the credit of this batch back now:
                    // what is enqueued from here on goes to the side that was just emptied or will be swapped to the reader
                    credit.fetch_add(static_cast<int64_t>(k), std::memory_order_relaxed);
                    if (last) { if (k == 0) break; continue; }
                    if (k == 0) ::sched_yield();
                }
            }
        });
        if (runaway) { violation("runaway:" + what, "the read side holds more than the capacity"); return; }
        judge(what, got, producers, per_producer, true, total);
        uint64_t h = producers;
        for (size_t i = 0; i < got.size(); ++i) h = mix(h, got[i]);
        seen(h);
        count("values streamed", total);
        count("buffer swaps", swaps);
        count("streams");
        (void)biggest;
    }

    static void judge(const std::string& what, const std::vector<uint64_t>& got, size_t producers, size_t per_producer, bool exact, size_t total) {
        std::vector<int64_t> last(producers, -1);
        for (size_t k = 0; k < got.size(); ++k) {
            const uint64_t p = got[k] >> 32;
            const int64_t i = static_cast<int64_t>(got[k] & 0xffffffff);
            if (p >= producers || static_cast<size_t>(i) >= per_producer) { violation("invented:" + what, sf("value %llu", static_cast<unsigned long long>(got[k]))); return; }
            if (i == last[p]) { violation("duplicate:" + what, sf("value %llu dequeued twice", static_cast<unsigned long long>(got[k]))); return; }
            if (i < last[p]) { violation("order:" + what, "values of one producer out of order"); return; }
            if (exact && i != last[p] + 1) { violation("lost:" + what, sf("a value before %llu is missing", static_cast<unsigned long long>(got[k]))); return; }
            last[p] = i;
        }
        if (exact && got.size() != total) violation("lost:" + what, sf("%zu of %zu values arrived", got.size(), total));
    }

    // the producers overrun the buffer
    static void overrun(conc::Pool& pool, Rng& r, size_t per_producer) {
        const std::string what = label();
        begin_case(what + " overrun");
        const size_t producers = pool.size() - 1;
        Box<Q> q(static_cast<unsigned char>(r.next()));
        std::vector<uint64_t> got;
        std::atomic<size_t> producing(producers);
        const unsigned pct = static_cast<unsigned>(r.below(10));
        std::atomic<bool> runaway(false);
        pool.run([&](size_t t) {
            conc::delay().percent = pct;
            if (t > 0) {
                for (size_t k = 0; k < per_producer; ++k) q->enqueue(Item<T>::make((static_cast<uint64_t>(t - 1) << 32) + k));
                producing.fetch_sub(1, std::memory_order_acq_rel);
            } else {
                for (;;) {
                    const bool last = producing.load(std::memory_order_acquire) == 0;
                    q->swap_buffer();
                    size_t k = 0;
                    while (!q->empty()) {
                        got.push_back(Item<T>::get(q->dequeue()));
                        if (++k > cap) { runaway = true; return; }
                    }
                    conc::delay().maybe();
                    if (last && k == 0) break;
                }
            }
        });
        if (runaway) { violation("runaway:" + what, "the read side holds more than the capacity"); return; }
        judge(what, got, producers, per_producer, false, 0);
        if (got.empty() || (got.back() & 0xffffffff) + 1 != per_producer) violation("newest:" + what, "the newest value is not some producer's last");
        if (got.size() < std::min(cap, producers * per_producer)) violation("lost:" + what, "fewer values than the capacity survived");
        count("overruns");
        seen(mix(got.size(), cap));
    }

    // one thread: exact contents, overflow included; nothing is allocated and nothing shows before a swap
    static void alone(Rng& r, size_t rounds) {
        const std::string what = label();
        for (size_t n = 0; n < rounds; ++n) {
            begin_case(what + sf(" alone %zu", n));
            Box<Q> q(static_cast<unsigned char>(r.next()));
            std::deque<uint64_t> w, rd;
            uint64_t next = 1, h = 3;
            if (!q->empty()) violation("fresh:" + what, "a new buffer has values to read");
            const size_t rounds2 = 1 + r.below(12);
            for (size_t round = 0; round < rounds2; ++round) {
                const size_t burst = r.chance(30) ? r.below(3 * cap + 2) : r.below(cap + 1);
                for (size_t k = 0; k < burst; ++k) {
                    const T v = Item<T>::make(next);
                    q->enqueue(v);
                    if (w.size() == cap) { w.pop_front(); count("oldest values replaced"); }
                    w.push_back(next++);
                    if (q->empty() != rd.empty()) violation("visible:" + what, "an enqueue changed the read side");
                    // read a little of what was swapped before while the write side fills
                    if (!rd.empty() && r.chance(30)) {
                        const uint64_t g = Item<T>::get(q->dequeue());
                        if (g != rd.front()) violation("sequential:" + what, sf("dequeued %llu instead of %llu", static_cast<unsigned long long>(g), static_cast<unsigned long long>(rd.front())));
                        rd.pop_front();
                    }
                }
                h = mix(h, burst);
                while (!rd.empty()) {
                    if (q->empty()) { violation("lost:" + what, sf("%zu values missing", rd.size())); break; }
                    const uint64_t g = Item<T>::get(q->dequeue());
                    if (g != rd.front()) violation("sequential:" + what, sf("dequeued %llu instead of %llu", static_cast<unsigned long long>(g), static_cast<unsigned long long>(rd.front())));
                    rd.pop_front();
                }
                if (!q->empty()) violation("extra:" + what, "values left after draining");
                q->swap_buffer();
                rd.swap(w);
                if (q->empty() != rd.empty()) violation("swap:" + what, "the read side is not what was written");
            }
            seen(mix(h, cap));
        }
    }

    // the class promises not to allocate
    static void no_allocation(Rng& r, size_t rounds) {
        begin_case(label() + " allocation");
        Box<efp::DoubleBuffer<uint64_t, cap>> q(static_cast<unsigned char>(r.next()));
        const uint64_t a0 = Heap::allocs();
        for (size_t n = 0; n < rounds; ++n) {
            for (size_t k = 0; k < cap + 2; ++k) q->enqueue(k);
            q->swap_buffer();
            while (!q->empty()) q->dequeue();
        }
        if (Heap::allocs() != a0) violation("allocates:" + label(), "operations allocated memory");
    }

    static void all(conc::Pool& pool, Rng& r, size_t weight) {
        if (!wanted(label())) return;
        alone(r, scaled(20 * weight));
        short_histories(pool, r, scaled(80 * weight));
        for (int k = 0; k < 3; ++k) stream(pool, r, scaled(200));
        overrun(pool, r, scaled(200));
        conc::settle(label().c_str(), true);
        conc::delay().percent = 0;
    }
};

// a copy that throws must not leave the buffer locked
template<size_t cap>
void throwing(conc::Pool& pool, Rng& r, size_t rounds) {
    typedef efp::DoubleBuffer<Noisy, cap> Q;
    for (size_t n = 0; n < rounds; ++n) {
        begin_case(sf("DoubleBuffer throwing copy %zu", n));
        {
            Box<Q> q(static_cast<unsigned char>(r.next()));
            const Noisy v(7), w(9);
            const size_t before = r.below(cap);
            for (size_t k = 0; k < before; ++k) q->enqueue(v);
            bool threw = false;
            conc::flags().boom_in = 1;
            try { q->enqueue(w); } catch (const conc::Boom&) { threw = true; }
            conc::flags().boom_in = 0;
            if (threw) count("enqueues that threw");
            std::atomic<size_t> n9(0);
            pool.run([&](size_t t) {
                if (t == 0) { q->swap_buffer(); while (!q->empty()) if (q->dequeue().a == 9) n9.fetch_add(1); }
                else q->enqueue(v);
            });
            q->swap_buffer();
            while (!q->empty()) if (q->dequeue().a == 9) n9.fetch_add(1);
            if (threw ? n9.load() > 0 : n9.load() > 1) violation("throw:DoubleBuffer", "a value whose enqueue threw was dequeued");
        }
        seen(n);
    }
}

int main(int argc, char** argv) {
    init(argc, argv);
    conc::start_watchdog(40);
    Rng r(st().seed);
    for (int k = 0; k < 2; ++k) {
        conc::Pool pool(k ? 6 : 3);
        Drive<uint64_t, 1>::all(pool, r, 3);
        Drive<Noisy, 1>::all(pool, r, 3);
        Drive<Noisy, 2>::all(pool, r, 5);
        Drive<uint64_t, 3>::all(pool, r, 5);
        Drive<Noisy, 4>::all(pool, r, 5);
        Drive<std::string, 5>::all(pool, r, 4);
        Drive<Noisy, 16>::all(pool, r, 5);
        Drive<std::string, 64>::all(pool, r, 2);
        throwing<4>(pool, r, scaled(40));
    }
    heap_install();
    Drive<uint64_t, 1>::no_allocation(r, 20);
    Drive<uint64_t, 7>::no_allocation(r, 20);
    conc::settle("DoubleBuffer", true);
    count("value copies observed", conc::flags().copies.load());
    return finish();
}
