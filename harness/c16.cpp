// C16: NonBlockingQ under threads.
#include "queues.hpp"

template<typename T, size_t cap>
struct Drive {
    typedef efp::NonBlockingQ<T, cap> Q;
    static size_t bound() { return cap == efp::dyn ? 0 : cap; }
    static std::string label() { return sf("NonBlockingQ<%s,%s>", Item<T>::name(), bound() ? std::to_string(cap).c_str() : "dyn"); }

    static uint64_t take(Q& q) {
        const efp::Maybe<T> v = q.dequeue();
        return v ? Item<T>::get(v.value()) : NOTHING;
    }

    // short rounds of any mixture of operations, every history checked
    static void short_histories(conc::Pool& pool, Rng& r, size_t rounds) {
        const std::string what = label();
        for (size_t n = 0; n < rounds; ++n) {
            begin_case(what + sf(" short round %zu", n));
            const size_t threads = 2 + r.below(pool.size() - 1);
            const size_t total = 3 + r.below(12);
            const size_t enq_pct = 25 + r.below(50), empty_pct = r.below(40);
            std::vector<std::vector<int>> plan(pool.size());
            for (size_t k = 0; k < total; ++k)
                plan[r.below(threads)].push_back(r.chance(enq_pct) ? ENQ : r.chance(empty_pct) ? EMPTY : DEQ);
            Box<Q> q(static_cast<unsigned char>(r.next()));
            std::vector<std::vector<Ev>> per(pool.size());
            const unsigned pct = static_cast<unsigned>(r.below(60));
            const uint64_t base = n * 10000;
            for (size_t t = 0; t < pool.size(); ++t) per[t].reserve(32);
            // values present before the round
            for (size_t k = r.chance(50) ? 0 : r.below(bound() ? 2 * bound() + 1 : 5) % 8; k > 0; --k) {
                Ev e;
                e.kind = ENQ;
                e.thread = 0;
                e.arg = base + 5000 + k;
                e.ret = 0;
                e.inv = now();
                q->enqueue(Item<T>::make(e.arg));
                e.resp = now();
                per[0].push_back(e);
            }
            pool.run([&](size_t t) {
                conc::delay().percent = pct;
                for (size_t k = 0; k < plan[t].size(); ++k) {
                    Ev e;
                    e.kind = plan[t][k];
                    e.thread = static_cast<int>(t);
                    e.arg = e.ret = 0;
                    if (e.kind == ENQ) {
                        e.arg = base + t * 100 + k + 1;
                        const T v = Item<T>::make(e.arg);
                        e.inv = now();
                        q->enqueue(v);
                        e.resp = now();
                    } else if (e.kind == DEQ) {
                        e.inv = now();
                        const efp::Maybe<T> v = q->dequeue();
                        e.resp = now();
                        e.ret = v ? Item<T>::get(v.value()) : NOTHING;
                    } else {
                        e.inv = now();
                        const bool b = q->is_empty();
                        e.resp = now();
                        e.ret = b;
                    }
                    per[t].push_back(e);
                    conc::delay().maybe();
                }
            });
            judge_history<Q>(what.c_str(), bound(), per);
            count("short rounds");
        }
    }

    // long streams: exactly once, in the order of each producer; the consumers poll
    static void stream(conc::Pool& pool, Rng& r, size_t per_producer) {
        const std::string what = label();
        begin_case(what + " stream");
        const size_t producers = 1 + r.below(pool.size() - 1), consumers = pool.size() - producers;
        const size_t total = producers * per_producer;
        Box<Q> q(static_cast<unsigned char>(r.next()));
        std::vector<std::vector<uint64_t>> got(pool.size());
        std::atomic<int64_t> credit(static_cast<int64_t>(bound()));
        std::atomic<size_t> taken(0);
        std::atomic<uint64_t> nothing(0), empties(0);
        const unsigned pct = static_cast<unsigned>(r.below(8));
        const bool ask = r.chance(50);
        // a queue that lost a value would leave the consumers polling: they stop after the producers are done and nothing is left
        std::atomic<size_t> producing(producers);
        (void)consumers;
        pool.run([&](size_t t) {
            conc::delay().percent = pct;
            if (t < producers) {
                for (size_t k = 0; k < per_producer; ++k) {
                    if (bound()) {
                        while (credit.fetch_sub(1, std::memory_order_relaxed) <= 0) {
                            credit.fetch_add(1, std::memory_order_relaxed);
                            ::sched_yield();
                        }
                    }
                    q->enqueue(Item<T>::make((static_cast<uint64_t>(t) << 32) + k));
                    if (k % 64 == 0) conc::step();
                }
                producing.fetch_sub(1, std::memory_order_acq_rel);
            } else {
                got[t].reserve(per_producer);
                for (;;) {
                    const bool last = producing.load(std::memory_order_acquire) == 0;
                    if (ask && q->is_empty()) empties.fetch_add(1, std::memory_order_relaxed);
                    const uint64_t v = take(*q);
                    if (v == NOTHING) {
                        nothing.fetch_add(1, std::memory_order_relaxed);
                        if (last) break;     // empty after the last enqueue had returned
                        ::sched_yield();
                        continue;
                    }
                    if (bound()) credit.fetch_add(1, std::memory_order_relaxed);
                    taken.fetch_add(1, std::memory_order_relaxed);
                    got[t].push_back(v);
                    if (got[t].size() % 64 == 0) conc::step();
                }
            }
        });
        std::set<uint64_t> once;
        uint64_t h = producers;
        bool bad = false;
        for (size_t t = producers; t < pool.size() && !bad; ++t) {
            std::vector<int64_t> last(producers, -1);
            for (size_t k = 0; k < got[t].size() && !bad; ++k) {
                const uint64_t v = got[t][k], p = v >> 32;
                bad = true;
                if (p >= producers || (v & 0xffffffff) >= per_producer) { violation("invented:" + what, sf("value %llu", static_cast<unsigned long long>(v))); break; }
                if (!once.insert(v).second) { violation("duplicate:" + what, sf("value %llu dequeued twice", static_cast<unsigned long long>(v))); break; }
                if (static_cast<int64_t>(v & 0xffffffff) <= last[p]) { violation("order:" + what, "a consumer saw a producer's values out of order"); break; }
                bad = false;
                last[p] = static_cast<int64_t>(v & 0xffffffff);
                h = mix(h, v);
            }
        }
        if (!bad && once.size() != total) violation("lost:" + what, sf("%zu of %zu values arrived", once.size(), total));
        if (!q->is_empty()) violation("empty:" + what, "a drained queue says it is not empty");
        seen(h);
        count("values streamed", total);
        count("empty answers while streaming", nothing.load());
        count("streams");
    }

    // a bounded queue overrun by producers: per producer the survivors are still in order and nothing is invented
    static void overrun(conc::Pool& pool, Rng& r, size_t per_producer) {
        if (!bound()) return;
        const std::string what = label();
        begin_case(what + " overrun");
        Box<Q> q(static_cast<unsigned char>(r.next()));
        conc::delay().percent = 0;
        const size_t producers = pool.size() - 1;
        std::vector<uint64_t> got;
        std::atomic<size_t> producing(producers);
        const unsigned pct = static_cast<unsigned>(r.below(20));
        pool.run([&](size_t t) {
            conc::delay().percent = pct;
            if (t < producers) {
                for (size_t k = 0; k < per_producer; ++k) q->enqueue(Item<T>::make((static_cast<uint64_t>(t) << 32) + k));
                producing.fetch_sub(1, std::memory_order_acq_rel);
            } else {
                while (producing.load(std::memory_order_acquire)) {
                    const uint64_t v = take(*q);
                    if (v != NOTHING) got.push_back(v);
                }
            }
        });
        // what is left now is the newest: never more than the capacity, and the last value of some producer comes last
        size_t left = 0;
        uint64_t v, tail = NOTHING;
        while ((v = take(*q)) != NOTHING) { got.push_back(v); tail = v; if (++left > bound()) { violation("capacity:" + what, "more values than the capacity"); break; } }
        std::vector<int64_t> last(producers, -1);
        for (size_t k = 0; k < got.size(); ++k) {
            const uint64_t p = got[k] >> 32;
            if (p >= producers || (got[k] & 0xffffffff) >= per_producer) { violation("invented:" + what, sf("value %llu", static_cast<unsigned long long>(got[k]))); break; }
            if (static_cast<int64_t>(got[k] & 0xffffffff) <= last[p]) { violation("order:" + what, "values of one producer out of order or twice"); break; }
            last[p] = static_cast<int64_t>(got[k] & 0xffffffff);
        }
        if (tail != NOTHING && (tail & 0xffffffff) + 1 != per_producer) violation("newest:" + what, "the newest value is not a producer's last");
        if (tail == NOTHING && (got.empty() || (got.back() & 0xffffffff) + 1 != per_producer)) violation("newest:" + what, "the last value taken is not a producer's last");
        if (got.size() < std::min<size_t>(bound(), producers * per_producer)) violation("lost:" + what, sf("%zu values survived", got.size()));
        count("overruns");
        seen(mix(got.size(), cap));
    }

    // one thread: exact contents, overflow included
    static void alone(Rng& r, size_t rounds) {
        const std::string what = label();
        for (size_t n = 0; n < rounds; ++n) {
            begin_case(what + sf(" alone %zu", n));
            Box<Q> q(static_cast<unsigned char>(r.next()));
            std::deque<uint64_t> m;
            uint64_t next = 1, h = 3;
            const size_t pct = 30 + r.below(50);
            for (size_t k = 2 + r.below(n % 20 == 19 ? 2000 : 80); k > 0; --k) {
                if (q->is_empty() != m.empty()) violation("is_empty:" + what, sf("with %zu values", m.size()));
                const bool e = r.chance(pct);
                h = mix(h, e);
                if (e) {
                    q->enqueue(Item<T>::make(next));
                    if (bound() && m.size() == bound()) { m.pop_front(); count("oldest values replaced"); }
                    m.push_back(next++);
                } else {
                    const uint64_t v = take(*q), want = m.empty() ? NOTHING : m.front();
                    if (v != want) violation("sequential:" + what, sf("dequeued %llu instead of %llu", static_cast<unsigned long long>(v), static_cast<unsigned long long>(want)));
                    if (!m.empty()) m.pop_front();
                    else count("empty answers");
                }
            }
            while (!m.empty() && r.chance(90)) {
                if (take(*q) != m.front()) violation("sequential:" + what, "while draining");
                m.pop_front();
            }
            seen(mix(h, cap));
        }
    }

    static void all(conc::Pool& pool, Rng& r, size_t weight) {
        if (!wanted(label())) return;
        alone(r, scaled(20 * weight));
        short_histories(pool, r, scaled(80 * weight));
        stream(pool, r, scaled(300));
        overrun(pool, r, scaled(200));
        conc::settle(label().c_str(), true);
        conc::delay().percent = 0;
    }
};

int main(int argc, char** argv) {
    init(argc, argv);
    conc::start_watchdog(40);
    Rng r(st().seed);
    for (int k = 0; k < 2; ++k) {
        conc::Pool pool(k ? 7 : 4);
        Drive<uint64_t, efp::dyn>::all(pool, r, 6);
        Drive<Noisy, efp::dyn>::all(pool, r, 8);
        Drive<std::string, efp::dyn>::all(pool, r, 3);
        Drive<Noisy, 1>::all(pool, r, 3);
        Drive<Noisy, 2>::all(pool, r, 4);
        Drive<uint64_t, 3>::all(pool, r, 5);
        Drive<Noisy, 5>::all(pool, r, 5);
        Drive<std::string, 8>::all(pool, r, 3);
        Drive<uint64_t, 64>::all(pool, r, 2);
        Drive<uint64_t, 300>::all(pool, r, 1);
    }
    conc::settle("NonBlockingQ", true);
    count("value copies observed", conc::flags().copies.load());
    return finish();
}
