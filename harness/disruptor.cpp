// D01 ring buffer delivery, D02 handler graphs and life cycle, D03 worker pools
#include "vp.hpp"
#include <cassert>
#include <disruptor/Disruptor.hpp>
#include <disruptor/IgnoreExceptionHandler.hpp>
#include <disruptor/RingBuffer.hpp>
#include <disruptor/RoundRobinThreadAffinedTaskScheduler.hpp>
#include <optional>

using namespace std::chrono_literals;
using namespace opencmw::disruptor;
static const bool light = std::getenv("VP_LIGHT") != nullptr;
using Clk = std::chrono::steady_clock;

struct Ev { // plain data on purpose: only the ring buffer orders the accesses
    std::int64_t  seq = -1, idx = -1;
    int           producer = -1;
    std::uint64_t sum = 0;
    std::int64_t  stage[8] = { -1, -1, -1, -1, -1, -1, -1, -1 };
    void          fill(std::int64_t s, int p, std::int64_t i) { seq = s; producer = p; idx = i; sum = vp::mix(vp::mix(static_cast<std::uint64_t>(s), static_cast<std::uint64_t>(p)), static_cast<std::uint64_t>(i)); }
    bool          ok(std::int64_t s) const { return seq == s && sum == vp::mix(vp::mix(static_cast<std::uint64_t>(s), static_cast<std::uint64_t>(producer)), static_cast<std::uint64_t>(idx)); }
};
struct ShortTimeout : TimeoutBlockingWaitStrategy { ShortTimeout() : TimeoutBlockingWaitStrategy(1ms) {} };

static void pause(vp::Rng &q, int pct) {
    if (!q.chance(pct)) return;
    switch (q.below(4)) {
    case 0: std::this_thread::yield(); break;
    case 1: std::this_thread::sleep_for(std::chrono::microseconds(q.below(60))); break;
    default: for (std::uint64_t k = q.below(400); k > 0; --k) asm volatile("");
    }
}

// online checker of one consumer's event stream
struct Stream {
    vp::Ctx                       &c;
    std::string                    key;
    std::int64_t                   last;
    std::map<int, std::int64_t>    idx;
    bool                           fromStart;
    std::uint64_t                  n = 0;
    bool                           failed = false;
    Stream(vp::Ctx &ctx, std::string k, std::int64_t l = -1, bool whole = true) : c(ctx), key(std::move(k)), last(l), fromStart(whole) {}
    void operator()(const Ev &e, std::int64_t seq, vp::Rng &q, int slow) {
        ++n;
        c.eval();
        auto fail = [&](const char *what) { if (!failed) c.violation(what, key + " sequence " + std::to_string(seq) + " after " + std::to_string(last) + ", slot holds sequence " + std::to_string(e.seq) + " producer " + std::to_string(e.producer) + " item " + std::to_string(e.idx)); failed = true; };
        if (seq != last + 1) fail("sequence-skipped-or-repeated");
        last = seq;
        if (!e.ok(seq)) fail("event-not-as-published");
        auto p = e.producer; auto i = e.idx;
        if (auto it = idx.find(p); it != idx.end() ? i != it->second + 1 : (fromStart && i != 0)) fail("producer-order-differs");
        idx[p] = i;
        pause(q, slow);
        if (!e.ok(seq) || e.producer != p || e.idx != i) fail("event-overwritten-while-read");
    }
};

template<typename RB>
static void produce(vp::Ctx &c, RB &rb, int producer, std::int64_t items, std::uint64_t seed, bool single, bool outstanding, int slow) {
    vp::Rng      q(seed);
    std::int64_t i  = 0;
    const auto   sz = rb.bufferSize();
    while (i < items) {
        switch (q.below(outstanding ? 6 : 5)) {
        case 0: { auto s = rb.next(); rb[s].fill(s, producer, i++); rb.publish(s); } break;
        case 1: {
            auto n  = static_cast<std::int32_t>(std::min<std::int64_t>(items - i, 1 + static_cast<std::int64_t>(q.below(static_cast<std::uint64_t>(std::max(1, sz - 1))))));
            auto hi = rb.next(n);
            for (auto s = hi - n + 1; s <= hi; ++s) rb[s].fill(s, producer, i++);
            pause(q, slow);
            if (single && q.chance(50)) rb.publish(hi); // single producer: the last one publishes all up to it
            else for (auto s = hi - n + 1; s <= hi; ++s) rb.publish(s);
        } break;
        case 2: try { auto s = rb.tryNext(); rb[s].fill(s, producer, i++); pause(q, slow / 2); rb.publish(s); } catch (const NoCapacityException &) { c.count("no_capacity"); std::this_thread::yield(); } break;
        case 3: rb.publishEvent([&](auto &&e, std::int64_t s) { e.fill(s, producer, i); }); ++i; break;
        case 4: if (rb.tryPublishEvent([&](auto &&e, std::int64_t s) { e.fill(s, producer, i); })) ++i; else std::this_thread::yield(); break;
        default: { // claim twice, then publish
            if (items - i < 2 || sz < 4) break;
            auto a = rb.next(); auto b = rb.next();
            pause(q, 80);
            rb[a].fill(a, producer, i++); rb[b].fill(b, producer, i++);
            pause(q, slow);
            rb.publish(a); rb.publish(b);
        }
        }
        pause(q, slow);
    }
}

template<std::size_t SIZE, typename WAIT, template<std::size_t, typename> typename CLAIM>
static void stress(vp::Ctx &c, const char *name, bool single) {
    auto        &r        = c.rng;
    using RB              = RingBuffer<Ev, SIZE, WAIT, CLAIM>;
    const int    nProd    = single ? 1 : 1 + static_cast<int>(r.below(4));
    const int    nCons    = 1 + static_cast<int>(r.below(4));
    const bool   dynamic_ = r.chance(50);
    const bool   outst    = !dynamic_ && single;
    const std::int64_t items = light ? 150 : 1200, total = items * nProd;
    const int    slowP = r.chance(50) ? 0 : static_cast<int>(r.below(40)), slowC = r.chance(50) ? 0 : static_cast<int>(r.below(60));
    std::string  key = std::string(name) + "/" + std::to_string(SIZE) + "/p" + std::to_string(nProd) + "/c" + std::to_string(nCons) + (dynamic_ ? "/dyn" : "");
    c.crumb("stress", key);
    auto rb = std::make_shared<RB>();
    std::vector<std::thread>      th;
    std::vector<std::shared_ptr<Sequence>> gate;
    std::atomic<bool>             giveUp{ false };
    std::vector<std::int64_t>     got(static_cast<std::size_t>(nCons), 0);
    std::vector<std::function<void()>> start;
    std::vector<std::shared_ptr<ISequenceBarrier>> barriers;
    std::shared_ptr<Sequence>     prev;
    int                           prevId = -1;
    for (int k = 0; k < nCons; ++k) {
        std::uint64_t seed = r.next();
        auto          kk   = key + " consumer " + std::to_string(k);
        int           dep  = (prev && r.chance(40)) ? prevId : -1; // this one works behind another one
        std::vector<std::shared_ptr<Sequence>> deps; if (dep >= 0) deps = { prev };
        if (r.chance(50)) {
            auto poller = rb->newPoller(deps);
            gate.push_back(poller->sequence()); prev = poller->sequence();
            start.push_back([&, poller, seed, kk, k, dep, slowC] {
                vp::Rng q(seed); Stream st(c, kk + " poller");
                auto    until = Clk::now() + 60s;
                while (st.last + 1 < total && Clk::now() < until) {
                    auto budget = 1 + q.below(SIZE + 2);
                    int  calls  = 0; bool lastEnd = false;
                    auto res    = poller->poll([&](Ev &e, std::int64_t s, bool end) {
                        st(e, s, q, slowC);
                        if (dep >= 0 && e.stage[dep] != s) c.violation("dependency-not-finished", kk);
                        e.stage[k] = s; ++calls; lastEnd = end;
                        return --budget > 0; });
                    if ((res == PollState::Processing) != (calls > 0)) c.violation("poll-state-differs", kk);
                    if (calls == 0) std::this_thread::yield();
                }
                got[static_cast<std::size_t>(k)] = st.last + 1;
            });
        } else {
            auto barrier = newBarrier(rb, deps);
            auto own     = std::make_shared<Sequence>();
            gate.push_back(own); prev = own; barriers.push_back(barrier);
            start.push_back([&, barrier, own, seed, kk, k, dep, slowC] {
                vp::Rng q(seed); Stream st(c, kk + " barrier");
                try {
                    while (st.last + 1 < total) {
                        std::int64_t avail;
                        try { avail = barrier->waitFor(st.last + 1); } catch (const TimeoutException &) { c.count("timeouts"); continue; }
                        while (st.last < avail) { auto s = st.last + 1; auto &e = (*rb)[s]; st(e, s, q, slowC); if (dep >= 0 && e.stage[dep] != s) c.violation("dependency-not-finished", kk); e.stage[k] = s; if (q.chance(30)) own->setValue(s); }
                        own->setValue(st.last);
                    }
                } catch (const AlertException &) {}
                got[static_cast<std::size_t>(k)] = st.last + 1;
            });
        }
        prevId = k;
    }
    rb->addGatingSequences(gate);
    for (auto &f : start) th.emplace_back(f);
    std::vector<std::thread> prod;
    for (int p = 0; p < nProd; ++p) { std::uint64_t seed = r.next(); prod.emplace_back([&, p, seed] { produce(c, *rb, p, items, seed, single, outst, slowP); }); }
    std::atomic<bool> prodDone{ false };
    std::thread dyn;
    if (dynamic_) {
        std::uint64_t seed = r.next();
        dyn = std::thread([&, seed] { // consumers that come and go while events are published
            vp::Rng q(seed);
            for (int rounds = 0; rounds < 60 && !prodDone; ++rounds) {
                auto poller = rb->newPoller();
                rb->addGatingSequences({ poller->sequence() });
                auto from = poller->sequence()->value();
                Stream st(c, key + " guest", from, false);
                auto   n = q.below(3 * SIZE);
                for (int tries = 0; st.n < n && tries < 2000 && !prodDone; ++tries) if (poller->poll([&](Ev &e, std::int64_t s, bool) { st(e, s, q, 30); }) != PollState::Processing) std::this_thread::yield();
                if (q.chance(30)) std::this_thread::sleep_for(std::chrono::microseconds(q.below(400))); // lets the producers run into it
                VP_CHECK(rb->removeGatingSequence(poller->sequence()), "gating-sequence-not-found", key);
                VP_CHECK(!rb->removeGatingSequence(poller->sequence()), "gating-sequence-found-twice", key);
                c.count("guests");
                pause(q, 50);
            }
        });
    }
    for (auto &t : prod) t.join();
    prodDone = true;
    if (dyn.joinable()) dyn.join();
    // every consumer finishes: watchdog for those blocked in a barrier
    std::atomic<bool> fin{ false };
    std::thread wd([&] { for (int i = 0; i < 3000 && !fin; ++i) std::this_thread::sleep_for(10ms); if (!fin) for (auto &b : barriers) b->alert(); });
    for (auto &t : th) t.join();
    fin = true; wd.join();
    for (int k = 0; k < nCons; ++k) VP_CHECK(got[static_cast<std::size_t>(k)] == total, "events-missing", key + " consumer " + std::to_string(k) + " got " + std::to_string(got[static_cast<std::size_t>(k)]) + " of " + std::to_string(total));
    VP_CHECK(rb->cursor() == total - 1 && rb->getMinimumGatingSequence() == total - 1 && rb->getRemainingCapacity() == static_cast<std::int64_t>(SIZE), "counters-differ", key);
    c.count("events", static_cast<std::uint64_t>(total * nCons));
    c.distinct(key + "#" + std::to_string(slowP) + "#" + std::to_string(slowC));
}

// sequential histories against a model
template<std::size_t SIZE, template<std::size_t, typename> typename CLAIM>
static void model(vp::Ctx &c, const char *name, bool single) {
    auto &r = c.rng;
    using RB = RingBuffer<Ev, SIZE, BlockingWaitStrategy, CLAIM>;
    auto rb = std::make_shared<RB>();
    const auto N = static_cast<std::int64_t>(SIZE);
    std::int64_t claimed = -1; std::set<std::int64_t> open; // claimed, not yet published
    struct Con { std::shared_ptr<EventPoller<Ev, SIZE, BlockingWaitStrategy, CLAIM>> poller; std::int64_t seq; };
    std::vector<Con> cons;
    std::string h = name;
    auto published = [&] { std::int64_t p = claimed; if (!open.empty()) p = *open.begin() - 1; return p; }; // contiguous
    auto mini = [&] { std::int64_t m = claimed; for (auto &k : cons) m = std::min(m, k.seq); return m; };
    auto hist = [&] { return h + " claimed " + std::to_string(claimed) + " open " + std::to_string(open.size()); };
    for (int step = 0; step < 80; ++step) {
        c.eval();
        switch (r.below(8)) {
        case 0: case 1: { // claim
            std::int32_t n = 1 + static_cast<std::int32_t>(r.below(SIZE > 2 ? SIZE - 1 : 1));
            if (!open.empty() && claimed + n - N >= *open.begin()) break; // nobody claims a slot again that its owner has not published
            bool         can = claimed + n - N <= mini();
            h += " C" + std::to_string(n);
            VP_CHECK(rb->hasAvailableCapacity(n) == can, "capacity-differs", hist());
            std::int64_t s = -2;
            if (can && r.chance(50)) s = rb->next(n);
            else { try { s = rb->tryNext(n); } catch (const NoCapacityException &) {} VP_CHECK((s != -2) == can, "try-next-differs", hist()); }
            if (s != -2) { VP_CHECK(s == claimed + n, "claimed-sequence-differs", hist()); for (auto i = claimed + 1; i <= claimed + n; ++i) { open.insert(i); (*rb)[i].fill(i, 0, i); } claimed += n; }
        } break;
        case 2: case 3: { // publish one (multi: any, single: the first)
            if (open.empty()) break;
            auto it = open.begin(); if (!single) std::advance(it, static_cast<long>(r.below(open.size())));
            h += " P" + std::to_string(*it);
            rb->publish(*it); open.erase(it);
        } break;
        case 4: { // new consumer; sees what is published (single) / claimed (multi) from now on
            if (cons.size() >= 3 || (single && !open.empty())) break;
            h += " +";
            auto p = rb->newPoller();
            rb->addGatingSequences({ p->sequence() });
            VP_CHECK(p->sequence()->value() == rb->cursor(), "new-consumer-start-differs", hist());
            cons.push_back({ p, rb->cursor() });
        } break;
        case 5: { if (cons.empty() || r.chance(60)) break; auto i = r.below(cons.size()); h += " -" + std::to_string(i); VP_CHECK(rb->removeGatingSequence(cons[i].poller->sequence()), "gating-sequence-not-found", hist()); cons.erase(cons.begin() + static_cast<long>(i)); } break;
        default: { // poll
            if (cons.empty()) break;
            auto i = r.below(cons.size()); auto &k = cons[i];
            auto stop = static_cast<std::int64_t>(r.below(SIZE + 2)); int mode = static_cast<int>(r.below(3));
            h += " R" + std::to_string(i) + "/" + std::to_string(mode) + "/" + std::to_string(stop);
            auto nextOpen = open.upper_bound(k.seq); auto avail = std::max(nextOpen == open.end() ? claimed : *nextOpen - 1, k.seq); if (single) avail = std::max(published(), k.seq); std::int64_t expect = k.seq; int calls = 0; bool bad = false, threw = false;
            PollState st = PollState::UNKNOWN;
            try {
                st = k.poller->poll([&](Ev &e, std::int64_t s, bool end) -> bool { if (s != expect + 1 || !e.ok(s) || end != (s == avail)) bad = true; if (mode == 2 && calls == stop) throw std::runtime_error("x"); ++expect; ++calls; return mode != 1 || calls <= stop; });
            } catch (const std::runtime_error &) { threw = true; }
            auto want = avail - k.seq; if (mode == 1) want = std::min(want, stop + 1); if (mode == 2) want = std::min(want, stop);
            bool wantThrow = mode == 2 && avail - k.seq > stop;
            VP_CHECK(!bad && calls == want && threw == wantThrow, "poll-delivers-differently", hist() + ": " + std::to_string(calls) + " instead of " + std::to_string(want));
            if (!threw) VP_CHECK(st == (avail > k.seq ? PollState::Processing : rb->cursor() > k.seq ? PollState::Gating : PollState::Idle), "poll-state-differs", hist());
            k.seq += want;
            VP_CHECK(k.poller->sequence()->value() == k.seq, "consumer-position-differs", hist());
        }
        }
        std::int64_t cur = single ? published() : claimed;
        VP_CHECK(rb->cursor() == cur, "cursor-differs", hist() + ": cursor " + std::to_string(rb->cursor()));
        VP_CHECK(rb->getRemainingCapacity() == N - (claimed - mini()), "remaining-capacity-differs", hist());
        for (auto s = std::max<std::int64_t>(0, claimed - N + 1); s <= claimed; ++s) VP_CHECK(rb->isPublished(s) == (single ? s <= published() : !open.contains(s)), "is-published-differs", hist() + " sequence " + std::to_string(s));
        VP_CHECK(!rb->isPublished(claimed + 1), "is-published-differs", hist());
        VP_CHECK(rb->getMinimumGatingSequence() == std::min(cur, cons.empty() ? cur : [&] { std::int64_t m = cur; for (auto &k : cons) m = std::min(m, k.seq); return m; }()), "minimum-differs", hist());
    }
    c.distinct(h);
}

// sequences that advance concurrently: the reported minimum never exceeds the real one
static void minimum(vp::Ctx &c) {
    c.crumb("minimum", "");
    for (std::uint64_t round = 0; round < vp::scaled(4); ++round) {
        std::vector<std::shared_ptr<Sequence>> v; for (int i = 0; i < 3; ++i) v.push_back(std::make_shared<Sequence>());
        std::atomic<bool> stop{ false };
        std::vector<std::thread> th; // v[0] and v[1] leapfrog; v[2] stays ahead
        v[2]->setValue(1LL << 60);
        th.emplace_back([&] { std::int64_t i = 0; while (!stop) { v[0]->setValue(i + 1000); v[1]->setValue(i + 1); i += 1; while (!stop && i > 100000000) {} } });
        // v[1] < v[0] always; the minimum is v[1], at most the value v[1] has afterwards
        std::uint64_t n = light ? 20000 : 300000;
        for (std::uint64_t i = 0; i < n; ++i) { auto m = detail::getMinimumSequence(v); auto after = v[1]->value(); if (m > after) { c.violation("minimum-too-large", std::to_string(m) + " > " + std::to_string(after)); break; } c.eval(); }
        stop = true; th[0].join();
    }
}

static void d01(vp::Ctx &c) {
    auto &r = c.rng;
    if (!light) for (std::uint64_t i = 0; i < vp::scaled(1500); ++i) switch (r.below(6)) {
        case 0: model<2, MultiThreadedStrategy>(c, "multi2", false); break;
        case 1: model<4, MultiThreadedStrategy>(c, "multi4", false); break;
        case 2: model<8, MultiThreadedStrategy>(c, "multi8", false); break;
        case 3: model<2, SingleThreadedStrategy>(c, "single2", true); break;
        case 4: model<4, SingleThreadedStrategy>(c, "single4", true); break;
        default: model<16, SingleThreadedStrategy>(c, "single16", true); break;
        }
    minimum(c);
    for (std::uint64_t i = 0; i < vp::scaled(light ? 40 : 60); ++i) switch (i % 8) {
        case 0: stress<4, BlockingWaitStrategy, MultiThreadedStrategy>(c, "multi/blocking", false); break;
        case 1: stress<16, YieldingWaitStrategy, SingleThreadedStrategy>(c, "single/yielding", true); break;
        case 2: stress<2, SleepingWaitStrategy, MultiThreadedStrategy>(c, "multi/sleeping", false); break;
        case 3: stress<8, SpinWaitWaitStrategy, SingleThreadedStrategy>(c, "single/spin", true); break;
        case 4: stress<8, ShortTimeout, MultiThreadedStrategy>(c, "multi/timeout", false); break;
        case 5: stress<4, BlockingWaitStrategy, SingleThreadedStrategy>(c, "single/blocking", true); break;
        case 6: stress<64, BusySpinWaitStrategy, MultiThreadedStrategy>(c, "multi/busy", false); break;
        default: stress<8, ShortTimeout, SingleThreadedStrategy>(c, "single/timeout", true); break;
        }
}

// ---- handler graphs ----
struct DelayedScheduler : ITaskScheduler { // one thread per task, started after an injected delay
    std::vector<std::thread> threads; std::vector<int> delay; std::size_t n = 0; std::atomic<int> running{ 0 };
    void start(std::size_t = 0) override {}
    void stop() override { for (auto &t : threads) if (t.joinable()) t.join(); }
    std::future<void> scheduleAndStart(std::packaged_task<void()> &&task) override {
        auto f = task.get_future(); int d = n < delay.size() ? delay[n] : 0; ++n; running++;
        threads.emplace_back([this, d, t = std::move(task)]() mutable { if (d) std::this_thread::sleep_for(std::chrono::microseconds(d)); t(); running--; });
        return f;
    }
    bool ended(int ms) { for (auto t0 = Clk::now(); running > 0 && Clk::now() - t0 < std::chrono::milliseconds(ms);) std::this_thread::sleep_for(200us); return running == 0; }
    ~DelayedScheduler() override { stop(); }
};
struct TestError : std::runtime_error { std::int64_t seq; TestError(std::int64_t s) : std::runtime_error("e" + std::to_string(s)), seq(s) {} };

struct Node : IEventHandler<Ev>, ILifecycleAware {
    vp::Ctx &c; int id; std::vector<int> deps; Stream st; vp::Rng q; int slow; int throwPct; std::string key;
    std::atomic<int> started{ 0 }, stopped{ 0 }; std::atomic<std::int64_t> done{ -1 }; std::set<std::int64_t> threw; bool throwLife = false;
    Node(vp::Ctx &ctx, int i, std::string k, std::uint64_t seed, int sl, int tp) : c(ctx), id(i), st(ctx, k + " handler " + std::to_string(i)), q(seed), slow(sl), throwPct(tp), key(std::move(k)) {}
    void onStart() override { if (started.fetch_add(1) != 0 || stopped > 0) c.violation("start-not-once", key); if (throwLife) throw TestError(-1); }
    void onShutdown() override { if (stopped.fetch_add(1) != 0 || started != 1) c.violation("shutdown-not-once", key); if (throwLife) throw TestError(-2); }
    void onEvent(Ev &e, std::int64_t s, bool) override {
        if (started != 1 || stopped != 0) c.violation("event-outside-life-cycle", key);
        st(e, s, q, slow);
        for (auto d : deps) if (e.stage[d] != s) c.violation("dependency-not-finished", key + " handler " + std::to_string(id) + " before " + std::to_string(d) + " at " + std::to_string(s));
        e.stage[id] = s;
        done.store(s);
        if (q.chance(throwPct)) { threw.insert(s); throw TestError(s); }
    }
};
struct Errors : IExceptionHandler<Ev> {
    vp::Ctx &c; std::string key; std::mutex m; std::multiset<std::int64_t> seen; int life = 0;
    Errors(vp::Ctx &ctx, std::string k) : c(ctx), key(std::move(k)) {}
    void handleEventException(const std::exception &ex, std::int64_t s, Ev &e) override { std::scoped_lock l(m); seen.insert(s); auto *t = dynamic_cast<const TestError *>(&ex); if (!t || t->seq != s || (e.seq != s)) c.violation("exception-differs", key); }
    void handleOnStartException(const std::exception &) override { std::scoped_lock l(m); ++life; }
    void handleOnShutdownException(const std::exception &) override { std::scoped_lock l(m); ++life; }
    void handleOnTimeoutException(const std::exception &, std::int64_t) override {}
};

static bool waitFor(const std::function<bool()> &f, int ms) { for (auto t0 = Clk::now(); Clk::now() - t0 < std::chrono::milliseconds(ms);) { if (f()) return true; std::this_thread::sleep_for(100us); } return f(); }

template<std::size_t SIZE, typename WAIT, template<std::size_t, typename> typename CLAIM>
static void graph(vp::Ctx &c, const char *name, bool single) {
    auto &r = c.rng;
    using Core = DisruptorCore<Ev, SIZE, WAIT, CLAIM>;
    int   n    = 1 + static_cast<int>(r.below(5));
    int   end  = static_cast<int>(r.below(3)); // 0 shutdown after everything ran, 1 shutdown at once, 2 halt at some point
    std::string key = std::string(name) + "/" + std::to_string(SIZE) + "/n" + std::to_string(n) + "/e" + std::to_string(end);
    auto sched = std::make_shared<DelayedScheduler>();
    for (int i = 0; i < n; ++i) sched->delay.push_back(r.chance(30) ? static_cast<int>(r.below(3000)) : 0);
    auto core   = std::make_shared<Core>(sched);
    auto errors = std::make_shared<Errors>(c, key);
    core->setDefaultExceptionHandler(errors);
    int  throwPct = r.chance(40) ? 5 : 0, slow = r.chance(50) ? 0 : static_cast<int>(r.below(40));
    std::vector<std::shared_ptr<Node>> nodes; std::vector<decltype(core->handleEventsWith(std::shared_ptr<IEventHandler<Ev>>()))> groups;
    std::vector<std::shared_ptr<Errors>> ownErr;
    std::string shape;
    for (int i = 0; i < n; ++i) {
        auto nd = std::make_shared<Node>(c, i, key, r.next(), slow, throwPct);
        nd->throwLife = r.chance(10);
        std::vector<std::shared_ptr<IEventHandler<Ev>>> after; std::vector<int> d;
        for (int j = 0; j < i; ++j) if (r.chance(40)) { d.push_back(j); after.push_back(nodes[static_cast<std::size_t>(j)]); }
        nd->deps = d;
        shape += "|"; for (int j : d) shape += std::to_string(j);
        std::shared_ptr<IEventHandler<Ev>> h = nd;
        if (d.empty()) groups.push_back(core->handleEventsWith(h));
        else if (r.chance(50)) groups.push_back(core->after(after)->handleEventsWith(h));
        else { auto g = groups[static_cast<std::size_t>(d[0])]; for (std::size_t k = 1; k < d.size(); ++k) g = g->And(groups[static_cast<std::size_t>(d[k])]); groups.push_back(g->then(h)); }
        if (r.chance(20)) { auto e = std::make_shared<Errors>(c, key + " own"); ownErr.push_back(e); core->handleExceptionsFor(h)->with(e); }
        nodes.push_back(nd);
    }
    key += shape;
    c.crumb("graph", key);
    auto rb = core->ringBuffer();
    core->start();
    bool refused = false; try { core->handleEventsWith(std::shared_ptr<IEventHandler<Ev>>(nodes[0])); } catch (const std::logic_error &) { refused = true; }
    VP_CHECK(refused, "handler-added-after-start", key);
    const std::int64_t items = light ? 60 : 400; int nProd = single ? 1 : 1 + static_cast<int>(r.below(3));
    const std::int64_t total = items * nProd;
    std::atomic<bool> again{ r.chance(30) };
    auto publish = [&] { std::vector<std::thread> prod; for (int p = 0; p < nProd; ++p) { std::uint64_t seed = r.next(); prod.emplace_back([&, p, seed] { produce(c, *rb, p, items, seed, single, false, slow); }); }
        if (again) { std::this_thread::sleep_for(std::chrono::microseconds(r.below(500))); bool th = false; try { core->start(); } catch (const std::logic_error &) { th = true; } VP_CHECK(th, "started-twice", key); }
        for (auto &t : prod) t.join(); };
    if (end == 0) {
        publish();
        VP_CHECK(waitFor([&] { for (auto &x : nodes) if (x->started == 0) return false; return true; }, 30000), "handler-not-started", key);
        std::atomic<bool> ret{ false };
        std::thread t([&] { core->shutdown(); ret = true; });
        VP_CHECK(waitFor([&] { return ret.load(); }, 30000), "shutdown-does-not-return", key);
        if (!ret) core->halt();
        t.join();
        // the chain's ends are done when shutdown returns; with them everything before
        for (auto &x : nodes) VP_CHECK(x->done.load() == total - 1, "shutdown-before-all-processed", key + " handler " + std::to_string(x->id) + " at " + std::to_string(x->done.load()) + " of " + std::to_string(total));
        VP_CHECK(sched->ended(30000), "processor-does-not-end", key);
        for (auto &x : nodes) VP_CHECK(x->st.n == static_cast<std::uint64_t>(total), "events-missing", key);
    } else if (end == 1) {
        // few enough events not to block the producer, shut down while the threads are possibly still starting
        std::int64_t few = static_cast<std::int64_t>(r.below(SIZE));
        for (std::int64_t i = 0; i < few; ++i) { auto s = rb->next(); (*rb)[s].fill(s, 0, i); rb->publish(s); }
        bool all = true; for (auto &x : nodes) if (x->started == 0) all = false;
        std::atomic<bool> ret{ false };
        std::thread t([&] { core->shutdown(); ret = true; });
        VP_CHECK(waitFor([&] { return ret.load(); }, 30000), "shutdown-does-not-return", key);
        if (!ret) core->halt();
        t.join();
        VP_CHECK(sched->ended(30000), "processor-does-not-end", key + " (shut down while starting)");
        for (auto &x : nodes) if (x->done.load() != few - 1) { if (all) c.violation("shutdown-before-all-processed", key); else c.violation("shutdown-before-start-skips-events", key); break; }
    } else {
        std::atomic<bool> stop{ false };
        std::thread prod([&] { vp::Rng q(1); std::int64_t i = 0; while (!stop && i < total) if (rb->tryPublishEvent([&](auto &&e, std::int64_t s) { e.fill(s, 0, i); })) ++i; else std::this_thread::yield(); });
        if (r.chance(70)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(3000)));
        core->halt();
        VP_CHECK(sched->ended(30000), "processor-does-not-end", key + " (halted)");
        stop = true; prod.join();
    }
    if (sched->running > 0) { for (int k = 0; k < 200 && sched->running > 0; ++k) { core->halt(); std::this_thread::sleep_for(5ms); } if (sched->running > 0) { std::fflush(nullptr); c.violation("processor-cannot-be-ended", key); c.finish(); std::_Exit(0); } }
    sched->stop();
    std::size_t threw = 0, seen = 0, life = 0, wantLife = 0;
    for (auto &x : nodes) { VP_CHECK(x->started == 1 && x->stopped == 1, "life-cycle-differs", key + " " + std::to_string(x->started) + "/" + std::to_string(x->stopped)); threw += x->threw.size(); if (x->throwLife) wantLife += 2; }
    seen = errors->seen.size(); life = static_cast<std::size_t>(errors->life); for (auto &e : ownErr) { seen += e->seen.size(); life += static_cast<std::size_t>(e->life); }
    VP_CHECK(threw == seen, "exceptions-not-reported", key + " " + std::to_string(threw) + " thrown " + std::to_string(seen) + " reported");
    VP_CHECK(life == wantLife, "life-cycle-exceptions-not-reported", key);
    c.count("handled_exceptions", seen);
    for (auto &x : nodes) c.count("handled", x->st.n);
    c.distinct(key + "#" + std::to_string(slow) + "#" + std::to_string(throwPct));
}

// an exception the exception handler does not handle ends that processor only; the rest is still shut down properly
static void fatal(vp::Ctx &c) {
    c.crumb("fatal", "");
    auto sched = std::make_shared<DelayedScheduler>();
    auto core  = std::make_shared<DisruptorCore<Ev, 8, BlockingWaitStrategy, MultiThreadedStrategy>>(sched);
    auto good = std::make_shared<Node>(c, 0, "fatal", 1, 0, 0), bad = std::make_shared<Node>(c, 1, "fatal", 2, 0, 100);
    core->handleEventsWith(std::shared_ptr<IEventHandler<Ev>>(good)); core->handleEventsWith(std::shared_ptr<IEventHandler<Ev>>(bad));
    core->start();
    auto rb = core->ringBuffer();
    VP_CHECK(waitFor([&] { return good->started == 1 && bad->started == 1; }, 30000), "handler-not-started", "fatal");
    for (int i = 0; i < 4; ++i) { auto s = rb->next(); (*rb)[s].fill(s, 0, i); rb->publish(s); }
    waitFor([&] { return sched->running == 1; }, 30000);
    VP_CHECK(sched->running == 1, "processor-does-not-end", "fatal");
    std::atomic<bool> ret{ false };
    std::thread t([&] { core->shutdown(); ret = true; });
    bool ok = waitFor([&] { return ret.load(); }, 10000);
    VP_CHECK(ok, "shutdown-does-not-return", "after a handler ended with an unhandled exception");
    if (!ok) { c.finish(); std::_Exit(0); }
    t.join();
    VP_CHECK(good->st.n == 4 && bad->st.n == 1, "events-missing", "fatal");
    VP_CHECK(sched->ended(30000), "processor-does-not-end", "fatal");
    sched->stop();
}

// a processor on its own: restarted after a halt it continues where it stopped
static void restart(vp::Ctx &c) {
    auto &r = c.rng;
    c.crumb("restart", "");
    auto rb = std::make_shared<RingBuffer<Ev, 8, BlockingWaitStrategy, MultiThreadedStrategy>>();
    auto barrier = newBarrier(rb, {});
    struct H : IEventHandler<Ev> { Stream st; vp::Rng q{ 7 }; std::atomic<std::int64_t> n{ 0 }; H(vp::Ctx &c) : st(c, "restart") {} void onEvent(Ev &e, std::int64_t s, bool) override { st(e, s, q, 20); n++; } };
    auto h = std::make_shared<H>(c);
    BatchEventProcessor<Ev> p(rb, barrier, h);
    rb->addGatingSequences({ p.sequence() });
    std::int64_t i = 0;
    for (int k = 0; k < 4; ++k) {
        std::atomic<bool> ended{ false };
        std::thread t([&] { p.run(); ended = true; });
        waitFor([&] { return p.isRunning(); }, 20000);
        bool threw = false; try { p.run(); } catch (const std::runtime_error &) { threw = true; }
        VP_CHECK(threw, "runs-twice", "restart");
        auto n = r.below(20);
        for (std::uint64_t j = 0; j < n; ++j) { auto s = rb->next(); (*rb)[s].fill(s, 0, i++); rb->publish(s); }
        VP_CHECK(waitFor([&] { return h->n.load() == i; }, 20000), "events-missing", "restart");
        p.halt();
        VP_CHECK(!p.isRunning(), "running-after-halt", "restart");
        VP_CHECK(waitFor([&] { return ended.load(); }, 20000), "processor-does-not-end", "restart");
        if (!ended) { c.finish(); std::_Exit(0); }
        t.join();
        auto m = r.below(4); // published while stopped
        for (std::uint64_t j = 0; j < m; ++j) { auto s = rb->next(); (*rb)[s].fill(s, 0, i++); rb->publish(s); }
    }
}

static void d02(vp::Ctx &c) {
    for (std::uint64_t i = 0; i < vp::scaled(light ? 60 : 150); ++i) {
        switch (i % 6) {
        case 0: graph<8, BlockingWaitStrategy, MultiThreadedStrategy>(c, "multi/blocking", false); break;
        case 1: graph<4, YieldingWaitStrategy, SingleThreadedStrategy>(c, "single/yielding", true); break;
        case 2: graph<16, SleepingWaitStrategy, MultiThreadedStrategy>(c, "multi/sleeping", false); break;
        case 3: graph<8, BlockingWaitStrategy, SingleThreadedStrategy>(c, "single/blocking", true); break;
        case 4: graph<4, SpinWaitWaitStrategy, MultiThreadedStrategy>(c, "multi/spin", false); break;
        default: graph<8, ShortTimeout, MultiThreadedStrategy>(c, "multi/timeout", false); break;
        }
        if (i % 15 == 0) fatal(c);
        if (i % 5 == 0) restart(c);
    }
    // the convenience class with its own scheduler
    for (std::uint64_t i = 0; i < vp::scaled(2); ++i) {
        c.crumb("disruptor", "");
        std::atomic<int> n{ 0 }, started{ 0 };
        struct L : IEventHandler<Ev>, ILifecycleAware { std::atomic<int> &n, &s; L(std::atomic<int> &a, std::atomic<int> &b) : n(a), s(b) {} void onStart() override { s++; } void onShutdown() override {} void onEvent(Ev &, std::int64_t, bool) override { n++; } };
        auto h = std::make_shared<L>(n, started);
        int  m = static_cast<int>(c.rng.below(200));
        bool early = c.rng.chance(50);
        {
            Disruptor<Ev, 64, ProducerType::Multi, RoundRobinThreadAffinedTaskScheduler, BlockingWaitStrategy> d(2);
            d->handleEventsWith(std::shared_ptr<IEventHandler<Ev>>(h));
            d->start();
            if (!early) { waitFor([&] { return started > 0; }, 20000); for (int k = 0; k < m; ++k) d->publishEvent([&](auto &&e, std::int64_t s) { e.fill(s, 0, k); }); }
        } // returns: nothing hangs even if the handler had not been started yet
        if (!early) VP_CHECK(n == m, "shutdown-before-all-processed", "Disruptor " + std::to_string(n) + " of " + std::to_string(m));
        c.count("disruptors");
    }
}

// ---- worker pools ----
template<std::size_t SIZE, typename WAIT, template<std::size_t, typename> typename CLAIM>
static void pool(vp::Ctx &c, const char *name, bool single) {
    auto &r = c.rng;
    using Core = DisruptorCore<Ev, SIZE, WAIT, CLAIM>;
    int  nw = 1 + static_cast<int>(r.below(4)), throwPct = r.chance(40) ? 5 : 0, slow = static_cast<int>(r.below(40));
    bool before = r.chance(50), after = r.chance(50);
    std::string key = std::string(name) + "/w" + std::to_string(nw) + (before ? "/before" : "") + (after ? "/after" : "");
    c.crumb("pool", key);
    auto sched = std::make_shared<DelayedScheduler>();
    for (int i = 0; i < nw + 2; ++i) sched->delay.push_back(r.chance(30) ? static_cast<int>(r.below(2000)) : 0);
    auto core   = std::make_shared<Core>(sched);
    auto errors = std::make_shared<Errors>(c, key);
    core->setDefaultExceptionHandler(errors);
    const std::int64_t items = light ? 80 : 500; int nProd = single ? 1 : 1 + static_cast<int>(r.below(3));
    const std::int64_t total = items * nProd;
    auto runs = std::make_unique<std::atomic<int>[]>(static_cast<std::size_t>(total));
    std::atomic<std::int64_t> done{ 0 }, threw{ 0 };
    struct W : IWorkHandler<Ev>, ILifecycleAware {
        vp::Ctx &c; std::string key; std::atomic<int> *runs; std::int64_t total; std::atomic<std::int64_t> &done, &threw; vp::Rng q; int slow, throwPct; bool dep; std::atomic<int> started{ 0 }, stopped{ 0 }; std::int64_t last = -1; std::uint64_t n = 0;
        W(vp::Ctx &ctx, std::string k, std::atomic<int> *ru, std::int64_t t, std::atomic<std::int64_t> &d, std::atomic<std::int64_t> &th, std::uint64_t seed, int s, int tp, bool de) : c(ctx), key(std::move(k)), runs(ru), total(t), done(d), threw(th), q(seed), slow(s), throwPct(tp), dep(de) {}
        void onStart() override { started++; }
        void onShutdown() override { stopped++; }
        void onEvent(Ev &e) override {
            c.eval(); ++n;
            if (started != 1 || stopped != 0) c.violation("event-outside-life-cycle", key);
            auto s = e.seq;
            if (s < 0 || s >= total || !e.ok(s)) { c.violation("event-not-as-published", key + " " + std::to_string(s)); return; }
            if (s <= last) c.violation("worker-order-differs", key);
            last = s;
            if (runs[s].fetch_add(1) != 0) c.violation("event-handled-twice", key + " " + std::to_string(s));
            if (dep && e.stage[0] != s) c.violation("dependency-not-finished", key + " worker at " + std::to_string(s));
            pause(q, slow);
            if (!e.ok(s)) c.violation("event-overwritten-while-read", key);
            e.stage[2] = s;
            done++;
            if (q.chance(throwPct)) { threw++; throw TestError(s); }
        }
    };
    std::vector<std::shared_ptr<W>> ws; std::vector<std::shared_ptr<IWorkHandler<Ev>>> wh;
    for (int i = 0; i < nw; ++i) { ws.push_back(std::make_shared<W>(c, key, runs.get(), total, done, threw, r.next(), slow, throwPct, before)); wh.push_back(ws.back()); }
    auto up = std::make_shared<Node>(c, 0, key, r.next(), slow, 0), down = std::make_shared<Node>(c, 1, key, r.next(), slow, 0);
    down->deps = { 2 };
    auto g = before ? core->handleEventsWith(std::shared_ptr<IEventHandler<Ev>>(up))->thenHandleEventsWithWorkerPool(wh) : core->handleEventsWithWorkerPool(wh);
    if (after) g->then(std::shared_ptr<IEventHandler<Ev>>(down));
    auto rb = core->ringBuffer();
    core->start();
    std::vector<std::thread> prod; for (int p = 0; p < nProd; ++p) { std::uint64_t seed = r.next(); prod.emplace_back([&, p, seed] { produce(c, *rb, p, items, seed, single, false, slow / 2); }); }
    for (auto &t : prod) t.join();
    bool ok = waitFor([&] { return done.load() == total && (!after || down->done.load() == total - 1); }, 30000);
    VP_CHECK(ok, "events-missing", key + " " + std::to_string(done.load()) + " of " + std::to_string(total));
    for (std::int64_t s = 0; s < total; ++s) if (runs[static_cast<std::size_t>(s)] != 1) { c.violation("event-not-handled-once", key + " " + std::to_string(s) + ": " + std::to_string(runs[static_cast<std::size_t>(s)])); break; }
    std::atomic<bool> ret{ false };
    std::thread t([&] { core->shutdown(); ret = true; });
    if (!waitFor([&] { return ret.load(); }, 30000)) { c.violation("shutdown-does-not-return", key); c.finish(); std::_Exit(0); }
    t.join();
    if (!sched->ended(30000)) { c.violation("processor-does-not-end", key); c.finish(); std::_Exit(0); }
    sched->stop();
    VP_CHECK(errors->seen.size() == static_cast<std::size_t>(threw.load()), "exceptions-not-reported", key);
    int busy = 0; for (auto &w : ws) { VP_CHECK(w->started == 1 && w->stopped == 1, "life-cycle-differs", key); busy += w->n > 0; }
    c.count("busy_workers_" + std::to_string(busy));
    c.count("events", static_cast<std::uint64_t>(total));
    c.distinct(key + "#" + std::to_string(slow) + "#" + std::to_string(busy));
}

static void drain(vp::Ctx &c) { // a pool on its own: drain, halt, start again
    auto &r = c.rng;
    c.crumb("drain", "");
    auto rb = std::make_shared<RingBuffer<Ev, 8, BlockingWaitStrategy, MultiThreadedStrategy>>();
    auto barrier = newBarrier(rb, {});
    struct W : IWorkHandler<Ev> { std::atomic<int> &n; vp::Rng q; W(std::atomic<int> &x, std::uint64_t s) : n(x), q(s) {} void onEvent(Ev &e) override { auto s = e.seq; pause(q, 40); if (e.ok(s)) n++; } };
    std::atomic<int> n{ 0 };
    std::vector<std::shared_ptr<IWorkHandler<Ev>>> wh; for (int i = 0; i < 3; ++i) wh.push_back(std::make_shared<W>(n, r.next()));
    WorkerPool<Ev> wp(rb, barrier, std::make_shared<IgnoreExceptionHandler<Ev>>(), wh);
    rb->addGatingSequences(wp.getWorkerSequences());
    int total = 0;
    for (int k = 0; k < 3; ++k) {
        auto sched = std::make_shared<DelayedScheduler>();
        auto exec  = std::make_shared<BasicExecutor>(sched);
        for (int i = 0; i < 3; ++i) sched->delay.push_back(r.chance(40) ? static_cast<int>(r.below(1500)) : 0);
        wp.start(exec);
        bool threw = false; try { wp.start(exec); } catch (const std::logic_error &) { threw = true; }
        VP_CHECK(threw && wp.isRunning(), "started-twice", "pool");
        int m = static_cast<int>(r.below(60));
        for (int i = 0; i < m; ++i) { auto s = rb->next(); (*rb)[s].fill(s, 0, total++); rb->publish(s); }
        wp.drainAndHalt();
        VP_CHECK(n == total, "drained-before-all-processed", std::to_string(n) + " of " + std::to_string(total));
        VP_CHECK(!wp.isRunning(), "running-after-halt", "pool");
        if (!sched->ended(20000)) { c.violation("processor-does-not-end", "pool"); c.finish(); std::_Exit(0); }
        sched->stop();
    }
    c.count("drains", 3);
}

static void d03(vp::Ctx &c) {
    for (std::uint64_t i = 0; i < vp::scaled(light ? 60 : 120); ++i) {
        switch (i % 4) {
        case 0: pool<8, BlockingWaitStrategy, MultiThreadedStrategy>(c, "multi/blocking", false); break;
        case 1: pool<4, YieldingWaitStrategy, SingleThreadedStrategy>(c, "single/yielding", true); break;
        case 2: pool<16, SleepingWaitStrategy, MultiThreadedStrategy>(c, "multi/sleeping", false); break;
        default: pool<4, ShortTimeout, SingleThreadedStrategy>(c, "single/timeout", true); break;
        }
        drain(c);
    }
}

void vp_main(vp::Ctx &c) {
    std::cerr.setstate(std::ios::failbit);
#if !defined(VP_PART) || VP_PART == 1
    if (c.mode == "d01") d01(c);
#endif
#if !defined(VP_PART) || VP_PART == 2
    if (c.mode == "d02") d02(c);
#endif
#if !defined(VP_PART) || VP_PART == 3
    if (c.mode == "d03") d03(c);
#endif
}
