// C15: BlockingQ under threads.
#include "queues.hpp"

template<typename T, size_t cap>
struct Drive {
    typedef efp::BlockingQ<T, cap> Q;
    static size_t bound() { return cap == efp::dyn ? 0 : cap; }
    static std::string label() { return sf("BlockingQ<%s,%s>", Item<T>::name(), bound() ? std::to_string(cap).c_str() : "dyn"); }

    // short rounds, every history checked
    static void short_histories(conc::Pool& pool, Rng& r, size_t rounds) {
        const std::string what = label();
        for (size_t n = 0; n < rounds; ++n) {
            begin_case(what + sf(" short round %zu", n));
            const size_t threads = 2 + r.below(pool.size() - 1);
            std::vector<std::vector<int>> plan(pool.size());
            size_t enq = 0, deq = 0;
            const size_t total = 4 + r.below(10);
            for (size_t k = 0; k < total; ++k) {
                const size_t t = r.below(threads);
                const bool can_deq = bound() ? deq < std::min(enq, bound()) : deq < enq;
                if (can_deq && r.chance(50)) { plan[t].push_back(DEQ); ++deq; }
                else { plan[t].push_back(ENQ); ++enq; }
            }
            // a thread must not wait for its own later enqueue: enqueues of a thread come before its dequeues
            for (size_t t = 0; t < threads; ++t) std::stable_sort(plan[t].begin(), plan[t].end());
            Box<Q> q(static_cast<unsigned char>(r.next()));
            std::vector<std::vector<Ev>> per(pool.size());
            const unsigned pct = static_cast<unsigned>(r.below(60));
            const uint64_t base = n * 1000;
            for (size_t t = 0; t < pool.size(); ++t) per[t].reserve(16);
            pool.run([&](size_t t) {
                conc::delay().percent = pct;
                for (size_t k = 0; k < plan[t].size(); ++k) {
                    Ev e;
                    e.kind = plan[t][k];
                    e.thread = static_cast<int>(t);
                    e.arg = e.ret = 0;
                    if (e.kind == ENQ) {
                        e.arg = base + t * 100 + k;
                        const T v = Item<T>::make(e.arg);
                        e.inv = now();
                        q->enqueue(v);
                        e.resp = now();
                    } else {
                        e.inv = now();
                        const T v = q->dequeue();
                        e.resp = now();
                        e.ret = Item<T>::get(v);
                    }
                    per[t].push_back(e);
                    conc::delay().maybe();
                }
            });
            judge_history<Q>(what.c_str(), bound(), per);
        }
        count("short rounds", rounds);
    }

    // consumers wait first, then just enough values arrive: every one of them must return
    static void wake_ups(conc::Pool& pool, Rng& r, size_t rounds) {
        const std::string what = label();
        for (size_t n = 0; n < rounds; ++n) {
            begin_case(what + sf(" wake-up round %zu", n));
            size_t consumers = 1 + r.below(pool.size() - 1);
            if (bound() && consumers > bound()) consumers = bound();
            const size_t producers = 1 + r.below(pool.size() - consumers);
            const size_t burst = 1 + r.below(consumers);
            const bool settle = r.chance(60);
            std::atomic<size_t> waiting(0), returned(0);
            std::atomic<uint64_t> sum(0);
            Box<Q> q(static_cast<unsigned char>(r.next()));
            pool.run([&](size_t t) {
                conc::delay().percent = 20;
                if (t < consumers) {
                    waiting.fetch_add(1, std::memory_order_relaxed);
                    const T v = q->dequeue();
                    sum.fetch_add(Item<T>::get(v), std::memory_order_relaxed);
                    returned.fetch_add(1, std::memory_order_relaxed);
                    conc::step();
                } else if (t < consumers + producers) {
                    if (settle) {
                        while (waiting.load(std::memory_order_relaxed) < consumers) ::sched_yield();
                        timespec ts = {0, 30000};
                        ::nanosleep(&ts, nullptr);
                    }
                    const size_t me = t - consumers;
                    size_t in_burst = 0;
                    for (size_t k = me; k < consumers; k += producers) {
                        q->enqueue(Item<T>::make(k + 1));
                        if (++in_burst % burst == 0) conc::delay().maybe();
                    }
                }
            });
            if (sum.load() != consumers * (consumers + 1) / 2) violation("values:" + what, "the consumers did not get what was enqueued");
            count("waiting consumers released", consumers);
        }
    }

    // long streams: exactly once, in the order of each producer
    static void stream(conc::Pool& pool, Rng& r, size_t per_producer) {
        const std::string what = label();
        begin_case(what + " stream");
        const size_t producers = 1 + r.below(pool.size() - 1), consumers = pool.size() - producers;
        const size_t total = producers * per_producer;
        Box<Q> q(static_cast<unsigned char>(r.next()));
        std::vector<std::vector<uint64_t>> got(pool.size());
        // a bounded queue loses what is overwritten; credits keep the producers from overrunning it
        std::atomic<int64_t> credit(static_cast<int64_t>(bound()));
        const unsigned pct = static_cast<unsigned>(r.below(8));
        pool.run([&](size_t t) {
            conc::delay().percent = pct;
            if (t < producers) {
                for (size_t k = 0; k < per_producer; ++k) {
                    if (bound()) {
                        while (credit.fetch_sub(1, std::memory_order_relaxed) <= 0) { credit.fetch_add(1, std::memory_order_relaxed); ::sched_yield(); }
                    }
                    q->enqueue(Item<T>::make((static_cast<uint64_t>(t) << 32) + k));
                }
            } else {
                const size_t c = t - producers;
                const size_t quota = total / consumers + (c < total % consumers ? 1 : 0);
                got[t].reserve(quota);
                for (size_t k = 0; k < quota; ++k) {
                    const T v = q->dequeue();
                    if (bound()) credit.fetch_add(1, std::memory_order_relaxed);
                    got[t].push_back(Item<T>::get(v));
                    if (k % 64 == 0) conc::step();
                }
            }
        });
        std::set<uint64_t> once;
        uint64_t h = producers;
        for (size_t t = producers; t < pool.size(); ++t) {
            std::vector<int64_t> last(producers, -1);
            for (size_t k = 0; k < got[t].size(); ++k) {
                const uint64_t v = got[t][k], p = v >> 32;
                if (p >= producers || (v & 0xffffffff) >= per_producer) { violation("invented:" + what, sf("value %llu", static_cast<unsigned long long>(v))); break; }
                if (!once.insert(v).second) { violation("duplicate:" + what, sf("value %llu dequeued twice", static_cast<unsigned long long>(v))); break; }
                if (static_cast<int64_t>(v & 0xffffffff) <= last[p]) { violation("order:" + what, "a consumer saw a producer's values out of order"); break; }
                last[p] = static_cast<int64_t>(v & 0xffffffff);
                h = mix(h, v);
            }
        }
        if (once.size() != total && st().violations == 0) violation("lost:" + what, sf("%zu of %zu values arrived", once.size(), total));
        seen(h);
        count("values streamed", total);
        count("streams");
    }

    // one thread: exact contents, overflow included
    static void alone(Rng& r, size_t rounds) {
        const std::string what = label();
        for (size_t n = 0; n < rounds; ++n) {
            begin_case(what + sf(" alone %zu", n));
            Box<Q> q(static_cast<unsigned char>(r.next()));
            std::deque<uint64_t> m;
            uint64_t next = 1, h = 3;
            for (size_t k = 2 + r.below(n % 20 == 19 ? 2000 : 60); k > 0; --k) {
                const bool e = m.empty() || r.chance(60);
                h = mix(h, e);
                if (e) {
                    q->enqueue(Item<T>::make(next));
                    if (bound() && m.size() == bound()) { m.pop_front(); count("oldest values replaced"); }
                    m.push_back(next++);
                } else {
                    const uint64_t v = Item<T>::get(q->dequeue());
                    if (v != m.front()) violation("sequential:" + what, sf("dequeued %llu instead of %llu", static_cast<unsigned long long>(v), static_cast<unsigned long long>(m.front())));
                    m.pop_front();
                }
            }
            while (!m.empty() && r.chance(90)) {
                if (Item<T>::get(q->dequeue()) != m.front()) violation("sequential:" + what, "while draining");
                m.pop_front();
            }
            seen(mix(h, cap));
        }
    }

    static void all(conc::Pool& pool, Rng& r, size_t weight) {
        if (!wanted(label())) return;
        alone(r, scaled(20 * weight));
        short_histories(pool, r, scaled(60 * weight));
        wake_ups(pool, r, scaled(40 * weight));
        stream(pool, r, scaled(300));
        conc::settle(label().c_str(), true);
        conc::delay().percent = 0;
    }
};

// an enqueue whose copy throws must not leave the queue locked
template<size_t cap>
void throwing(conc::Pool& pool, Rng& r, size_t rounds) {
    typedef efp::BlockingQ<Noisy, cap> Q;
    for (size_t n = 0; n < rounds; ++n) {
        begin_case(sf("BlockingQ throwing copy %zu", n));
        Box<Q> q(static_cast<unsigned char>(r.next()));
        for (uint64_t k = 0; k < 2; ++k) q->enqueue(Noisy(k));
        bool threw = false;
        conc::flags().boom_in = 1 + static_cast<int>(r.below(3));
        try { q->enqueue(Noisy(9)); } catch (const conc::Boom&) { threw = true; }
        conc::flags().boom_in = 0;
        if (threw) count("enqueues that threw");
        pool.run([&](size_t t) {
            if (t == 0) { try { for (int k = 0; k < 4; ++k) q->enqueue(Noisy(20)); } catch (...) {} }
            if (t == 1) for (int k = 0; k < 2; ++k) q->dequeue();
        });
    }
}

int main(int argc, char** argv) {
    init(argc, argv);
    conc::start_watchdog(40);
    Rng r(st().seed);
    for (int k = 0; k < 2; ++k) {
        conc::Pool pool(k ? 7 : 4);
        Drive<uint64_t, efp::dyn>::all(pool, r, 6);
        Drive<Noisy, efp::dyn>::all(pool, r, 8);
        Drive<std::string, efp::dyn>::all(pool, r, 3);
        Drive<Noisy, 1>::all(pool, r, 3);
        Drive<Noisy, 2>::all(pool, r, 4);
        Drive<uint64_t, 3>::all(pool, r, 5);
        Drive<Noisy, 5>::all(pool, r, 5);
        Drive<std::string, 8>::all(pool, r, 3);
        Drive<uint64_t, 64>::all(pool, r, 2);
        Drive<uint64_t, 300>::all(pool, r, 1);
        throwing<efp::dyn>(pool, r, scaled(20));
    }
    conc::settle("BlockingQ", true);
    count("value copies observed", conc::flags().copies.load());
    return finish();
}
