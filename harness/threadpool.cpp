// P01 tasks run exactly once / results, P02 shutdown, P03 order, names, constraints, sizes
#include "vp.hpp"
#include <ThreadPool.hpp>
#include <sched.h>
#include <dirent.h>
#include <optional>

using namespace std::chrono_literals;
using opencmw::BasicThreadPool;
static const bool light = std::getenv("VP_LIGHT") != nullptr;

#ifdef VP_INTERPOSE
#include <dlfcn.h>
static std::atomic<int> sleepDelayUs{ 0 }; // injected delay: a thread that decided to wait is late going to sleep
extern "C" int pthread_cond_clockwait(pthread_cond_t *cv, pthread_mutex_t *m, clockid_t clk, const struct timespec *t) {
    static auto real = reinterpret_cast<int (*)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *)>(::dlsym(RTLD_NEXT, "pthread_cond_clockwait"));
    if (int d = sleepDelayUs.load(std::memory_order_relaxed)) ::usleep(static_cast<useconds_t>(d));
    return real(cv, m, clk, t);
}
static void injectSleepDelay(int us) { sleepDelayUs = us; }
#else
static void injectSleepDelay(int) {}
#endif

struct Probe { // a callable with owned state: moving or copying it wrongly shows as lost state
    std::string           tag;
    std::atomic<int>     *runs;
    std::atomic<int>     *bad;
    const std::string    *expect;
    void operator()() { if (tag != *expect) bad->fetch_add(1); runs->fetch_add(1, std::memory_order_relaxed); }
};

static bool waitFor(const std::function<bool()> &f, int ms) {
    for (auto t0 = std::chrono::steady_clock::now(); std::chrono::steady_clock::now() - t0 < std::chrono::milliseconds(ms);) { if (f()) return true; std::this_thread::sleep_for(200us); }
    return f();
}

template<opencmw::TaskType TT>
static void p01round(vp::Ctx &c, std::uint64_t round) {
    auto    &r    = c.rng;
    uint32_t mn   = 1 + static_cast<uint32_t>(r.below(4)), mx = mn + static_cast<uint32_t>(r.below(4));
    int      subs = 1 + static_cast<int>(r.below(4));
    int      per  = light ? 25 : 120;
    std::string key = std::to_string(TT) + "/" + std::to_string(mn) + "-" + std::to_string(mx) + "/" + std::to_string(subs);
    c.crumb("p01", key);
    struct Slot { std::atomic<int> runs{ 0 }; int payload = 0; std::uint64_t seen = 0; };
    std::vector<std::vector<Slot>> slots(static_cast<std::size_t>(subs));
    for (auto &s : slots) s = std::vector<Slot>(static_cast<std::size_t>(per));
    std::atomic<int>  done{ 0 }, bad{ 0 }, maxPar{ 0 }, par{ 0 }, futures{ 0 }, errors{ 0 };
    const std::string expect(40, 'k');
    std::atomic<int>  probeRuns{ 0 };
    int               probes = 0;
    std::atomic<int>  probesA{ 0 };
    {
        BasicThreadPool<TT> pool("p01", mn, mx);
        pool.keepAliveDuration = r.chance(40) ? std::chrono::milliseconds(r.range(1, 8)) : std::chrono::milliseconds(30000);
        pool.waitUntilInitialised();
        VP_CHECK(pool.isInitialised() && pool.numThreads() >= mn, "not-initialised", key);
        std::vector<std::thread> th;
        for (int s = 0; s < subs; ++s) {
            std::uint64_t seed = r.next();
            th.emplace_back([&, s, seed] {
                vp::Rng q(seed);
                std::vector<std::pair<std::future<int>, int>> fut;
                std::vector<std::future<std::string>>         bad_;
                Probe                                         lv{ expect, &probeRuns, &bad, &expect };
                for (int i = 0; i < per; ++i) {
                    auto &slot   = slots[static_cast<std::size_t>(s)][static_cast<std::size_t>(i)];
                    slot.payload = s * 100000 + i; // written by the submitter, read by the worker
                    auto body    = [&slot, &par, &maxPar, &done, &bad, s, i] {
                        int p = par.fetch_add(1) + 1;
                        for (int m = maxPar.load(); p > m && !maxPar.compare_exchange_weak(m, p);) {}
                        if (slot.payload != s * 100000 + i) bad.fetch_add(1);
                        slot.seen = static_cast<std::uint64_t>(slot.payload) + 1;
                        slot.runs.fetch_add(1, std::memory_order_relaxed);
                        par.fetch_sub(1);
                        done.fetch_add(1, std::memory_order_relaxed);
                    };
                    switch (q.below(6)) {
                    case 0: pool.execute(std::move(body)); break;
                    case 1: pool.template execute<"named", 0>(std::move(body)); break;
                    case 2: pool.template execute<"", 7>(std::move(body)); break;
                    case 3: fut.emplace_back(pool.execute([body, i]() mutable { body(); return i * 3; }), i * 3); break;
                    case 4: bad_.push_back(pool.execute([body, i]() mutable -> std::string { body(); if (i >= 0) throw std::runtime_error("e" + std::to_string(i)); return ""; })); break;
                    default: pool.execute([body](const auto &...) mutable { body(); }); break;
                    }
                    if (q.chance(10)) { probesA.fetch_add(1); pool.execute(lv); } // an lvalue callable stays usable by its owner
                    if (q.chance(6)) std::this_thread::sleep_for(std::chrono::microseconds(q.below(3000)));
                    if (q.chance(10)) std::this_thread::yield();
                }
                for (auto &[f, v] : fut) { if (f.wait_for(20s) != std::future_status::ready) { errors.fetch_add(1); continue; } if (f.get() != v) bad.fetch_add(1); futures.fetch_add(1); }
                for (auto &f : bad_) { if (f.wait_for(20s) != std::future_status::ready) { errors.fetch_add(1); continue; } try { f.get(); bad.fetch_add(1); } catch (const std::runtime_error &e) { if (e.what()[0] != 'e') bad.fetch_add(1); } futures.fetch_add(1); }
                if (lv.tag != expect) bad.fetch_add(1000);
            });
        }
        for (auto &t : th) t.join();
        bool all = waitFor([&] { return done.load() == subs * per && probeRuns.load() == probesA.load(); }, 20000);
        VP_CHECK(all, "task-not-executed", key + ": " + std::to_string(done.load()) + " of " + std::to_string(subs * per) + " tasks finished");
        VP_CHECK(errors.load() == 0, "future-not-ready", key);
        VP_CHECK(waitFor([&] { return pool.numTasksQueued() == 0 && pool.numTasksRunning() == 0; }, 20000), "pool-counters-differ", key + " queued " + std::to_string(pool.numTasksQueued()) + " running " + std::to_string(pool.numTasksRunning()));
        VP_CHECK(pool.numThreads() >= mn, "too-few-threads", key);
        VP_CHECK(pool.poolName() == "p01" && pool.minThreads() == mn && pool.maxThreads() == mx, "attributes-differ", key);
    }
    for (auto &v : slots) for (auto &s : v) if (s.runs.load() != 1 || s.seen != static_cast<std::uint64_t>(s.payload) + 1) { c.violation("task-not-exactly-once", key + ": ran " + std::to_string(s.runs.load()) + " times"); break; }
    VP_CHECK(bad.load() == 0, bad.load() >= 1000 ? "callers-callable-changed" : "task-saw-wrong-data", key + " " + std::to_string(bad.load()));
    (void) probes;
    c.count("tasks", static_cast<std::uint64_t>(subs * per));
    c.count("futures", static_cast<std::uint64_t>(futures.load()));
    c.distinct(key + "#" + std::to_string(maxPar.load()) + "#" + std::to_string(round));
    c.count("max_parallel_" + std::to_string(maxPar.load()));
}

// one task at a time to a pool which is just about to go to sleep: none may wait for the next time-out
template<opencmw::TaskType TT>
static void p01ping(vp::Ctx &c) {
    auto    &r = c.rng;
    uint32_t n = 1 + static_cast<uint32_t>(r.below(3));
    std::string key = "ping/" + std::to_string(TT) + "/" + std::to_string(n);
    c.crumb("ping", key);
    BasicThreadPool<TT> pool("ping", n, n);
    pool.keepAliveDuration = 60000ms;
    pool.waitUntilInitialised();
    std::atomic<std::uint64_t> done{ 0 };
    bool                       slow = r.chance(50);
    int                        N = slow ? 300 : light ? 1500 : 6000;
    if (slow) injectSleepDelay(400);
    for (int i = 0; i < N; ++i) {
        pool.execute([&done] { done.fetch_add(1); });
        bool ok = false;
        for (auto t0 = std::chrono::steady_clock::now(); !ok && std::chrono::steady_clock::now() - t0 < 15s;) { ok = done.load() == static_cast<std::uint64_t>(i) + 1; if (!ok) std::this_thread::yield(); }
        VP_CHECK(ok, "task-waits-for-a-sleeping-pool", key + " task " + std::to_string(i));
        if (!ok) { injectSleepDelay(0); return; }
        for (std::uint64_t k = r.below(2500); k > 0; --k) asm volatile("");
        if (r.chance(slow ? 60 : 1)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(600)));
    }
    injectSleepDelay(0);
    c.count("ping_tasks", static_cast<std::uint64_t>(N));
}

template<opencmw::TaskType TT>
static void p02round(vp::Ctx &c, std::uint64_t round) {
    auto    &r  = c.rng;
    uint32_t mn = 1 + static_cast<uint32_t>(r.below(3)), mx = mn + static_cast<uint32_t>(r.below(3));
    int      n  = static_cast<int>(r.below(12));
    bool     explicitShutdown = r.chance(50), twice = r.chance(30);
    std::string key = std::to_string(TT) + "/" + std::to_string(mn) + "-" + std::to_string(mx) + "/n" + std::to_string(n) + (explicitShutdown ? "/req" : "") + (twice ? "/twice" : "");
    c.crumb("p02", key);
    std::vector<std::atomic<int>>  started(static_cast<std::size_t>(n)), finished(static_cast<std::size_t>(n));
    std::vector<std::future<int>>  fut;
    auto                           alive = std::make_shared<int>(1);
    std::weak_ptr<int>             watch = alive;
    auto t0 = std::chrono::steady_clock::now();
    std::atomic<bool> poolGone{ false };
    std::atomic<int>  late{ 0 };
    {
        if (r.chance(10)) injectSleepDelay(500);
        BasicThreadPool<TT> pool("p02", mn, mx);
        pool.keepAliveDuration = 60000ms;
        if (r.chance(60)) pool.waitUntilInitialised();
        if (r.chance(40)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(4000)));
        for (int i = 0; i < n; ++i) {
            int d = static_cast<int>(r.below(4));
            fut.push_back(pool.execute([&, i, d, alive] { if (poolGone) late++; started[static_cast<std::size_t>(i)]++; if (d == 0) std::this_thread::sleep_for(2ms); finished[static_cast<std::size_t>(i)]++; return i; }));
        }
        alive.reset();
        if (r.chance(50)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(3000)));
        if (explicitShutdown) {
            pool.requestShutdown();
            VP_CHECK(pool.isShutdown() && pool.numThreads() == 0, "threads-left-after-shutdown", key);
            for (int i = 0; i < n; ++i) VP_CHECK(started[static_cast<std::size_t>(i)] == finished[static_cast<std::size_t>(i)], "shutdown-did-not-wait", key);
            if (twice) pool.requestShutdown();
        }
    }
    poolGone = true;
    injectSleepDelay(0);
    auto took = std::chrono::steady_clock::now() - t0;
    VP_CHECK(took < 30s, "shutdown-delayed", key + " took " + std::to_string(std::chrono::duration_cast<std::chrono::milliseconds>(took).count()) + " ms");
    int ran = 0;
    for (int i = 0; i < n; ++i) {
        auto &s = started[static_cast<std::size_t>(i)], &f = finished[static_cast<std::size_t>(i)];
        VP_CHECK(s <= 1 && s == f, "task-not-at-most-once", key);
        ran += s;
        auto &fu = fut[static_cast<std::size_t>(i)];
        if (fu.wait_for(0s) != std::future_status::ready) { c.violation("future-left-open", key); continue; }
        try { int v = fu.get(); VP_CHECK(v == i && s == 1, "future-differs", key); } catch (const std::future_error &) { VP_CHECK(s == 0, "future-broken-though-run", key); c.count("broken_promises"); }
    }
    VP_CHECK(watch.expired(), "task-state-leaked", key);
    std::this_thread::sleep_for(200us);
    VP_CHECK(late == 0, "task-after-destruction", key);
    c.count("tasks_run", static_cast<std::uint64_t>(ran));
    c.distinct(key + "/" + std::to_string(ran) + "/" + std::to_string(round % 64));
}

static std::string threadComm(long tid) { std::string p = "/proc/self/task/" + std::to_string(tid) + "/comm"; char b[64] = {}; int fd = ::open(p.c_str(), O_RDONLY); if (fd < 0) return "?"; auto n = ::read(fd, b, 63); ::close(fd); std::string s(b, n > 0 ? static_cast<std::size_t>(n) : 0); while (!s.empty() && s.back() == '\n') s.pop_back(); return s; }
static std::vector<bool> affinityOf(pid_t tid) { cpu_set_t s; CPU_ZERO(&s); sched_getaffinity(tid, sizeof s, &s); std::vector<bool> v; for (int i = 0; i < 64; ++i) v.push_back(CPU_ISSET(i, &s)); return v; }
static std::vector<pid_t> poolThreads(const std::string &prefix) {
    std::vector<pid_t> v; DIR *d = ::opendir("/proc/self/task"); while (auto *e = ::readdir(d)) { long t = std::atol(e->d_name); if (t > 0 && threadComm(t).starts_with(prefix)) v.push_back(static_cast<pid_t>(t)); } ::closedir(d); return v; }

template<std::size_t I> static void execPrio(auto &pool, auto f) { pool.template execute<"", I>(std::move(f)); }
static void p03(vp::Ctx &c) {
    auto &r = c.rng;
    for (std::uint64_t round = 0; round < vp::scaled(light ? 100 : 300); ++round) {
        // queued tasks start by descending priority, first come first served within one
        BasicThreadPool<opencmw::CPU_BOUND> pool("p03", 1, 1);
        pool.keepAliveDuration = 30000ms;
        pool.waitUntilInitialised();
        std::atomic<bool> hold{ true }, holding{ false };
        pool.execute([&] { holding = true; while (hold) std::this_thread::sleep_for(100us); });
        waitFor([&] { return holding.load(); }, 20000);
        std::vector<std::pair<int, int>> want, got; // (-priority, submission)
        std::mutex                       m;
        std::string                      key;
        int                              n = 2 + static_cast<int>(r.below(12));
        std::atomic<int>                 done{ 0 };
        for (int i = 0; i < n; ++i) {
            static const int prio[] = { 0, 1, 2, 5, 20 };
            int              p      = prio[r.below(5)];
            auto             f      = [&, p, i] { std::scoped_lock l(m); got.emplace_back(-p, i); done++; };
            want.emplace_back(-p, i);
            key += std::to_string(p) + ",";
            switch (p) { case 0: execPrio<0>(pool, f); break; case 1: execPrio<1>(pool, f); break; case 2: execPrio<2>(pool, f); break; case 5: execPrio<5>(pool, f); break; default: execPrio<20>(pool, f); break; }
        }
        c.crumb("priority", key);
        VP_CHECK(pool.numTasksQueued() == static_cast<std::size_t>(n) && pool.numTasksRunning() == 1, "pool-counters-differ", key);
        hold = false;
        waitFor([&] { return done.load() == n; }, 20000);
        std::stable_sort(want.begin(), want.end(), [](auto &a, auto &b) { return a.first < b.first; });
        { std::scoped_lock l(m); std::string s; for (auto &x : got) s += std::to_string(-x.first) + "#" + std::to_string(x.second) + " "; VP_CHECK(got == want, "execution-order-differs", key + " ran as " + s); }
        c.distinct(key);
        if (round < 3) c.sample(key);
        // a named task runs under its name; afterwards the thread has the pool's name again
        auto nm = pool.execute<"myTask", 0>([] { return opencmw::thread::getThreadName(); });
        VP_CHECK(nm.get() == "myTask", "task-name-differs", "named");
        auto nm2 = pool.execute([] { return opencmw::thread::getThreadName(); });
        auto s2  = nm2.get();
        VP_CHECK(s2.starts_with("p03#"), "thread-name-differs", s2);
        // a request for a CPU outside the mask is refused and not executed
        bool ran = false, threw = false;
        try { pool.execute<"", 0, 60>([&ran] { ran = true; }); } catch (const std::invalid_argument &) { threw = true; }
        VP_CHECK(threw, "cpu-outside-mask-accepted", "cpu 60");
        VP_CHECK(pool.numTasksQueued() == 0, "pool-counters-differ", "after a refused task");
    }
    // grows when all threads are blocked, shrinks back to the minimum, constraints apply to the pool's threads only
    for (std::uint64_t round = 0; round < vp::scaled(light ? 10 : 20); ++round) {
        uint32_t mn = 1 + static_cast<uint32_t>(r.below(2)), mx = mn + 2 + static_cast<uint32_t>(r.below(3));
        std::string nm = "g" + std::to_string(round) + "x" + std::to_string(c.shard);
        c.crumb("grow", nm);
        auto mine = affinityOf(0);
        BasicThreadPool<opencmw::IO_BOUND> pool(nm, mn, mx);
        pool.keepAliveDuration = 20ms;
        pool.waitUntilInitialised();
        std::atomic<bool> hold{ true }; std::atomic<int> in{ 0 };
        for (uint32_t i = 0; i < mx; ++i) pool.execute([&] { in++; while (hold) std::this_thread::sleep_for(100us); });
        VP_CHECK(waitFor([&] { return in.load() == static_cast<int>(mx); }, 20000), "blocked-tasks-not-parallel", nm);
        VP_CHECK(pool.numThreads() >= mx, "too-few-threads", nm);
        hold = false;
        VP_CHECK(waitFor([&] { return pool.numThreads() == mn; }, 20000), "does-not-shrink", nm + " " + std::to_string(pool.numThreads()));
        std::this_thread::sleep_for(5ms);
        VP_CHECK(pool.numThreads() == mn, "too-few-threads", nm);
        std::vector<bool> mask(mine.size(), false);
        std::size_t       first = 0; while (!mine[first]) ++first;
        mask[first] = true; for (std::size_t i = first + 1; i < mine.size(); ++i) if (mine[i] && r.chance(50)) mask[i] = true;
        try {
            pool.setAffinityMask(mask);
            VP_CHECK(affinityOf(0) == mine, "callers-affinity-changed", nm);
            VP_CHECK(pool.getAffinityMask() == mask, "mask-differs", nm);
            auto th = poolThreads(nm);
            for (auto t : th) VP_CHECK(affinityOf(t) == mask, "pool-thread-affinity-differs", nm);
            VP_CHECK(!th.empty(), "pool-threads-not-named", nm);
            pool.setThreadSchedulingPolicy(opencmw::thread::Policy::OTHER, 0);
            VP_CHECK(pool.getSchedulingPolicy() == opencmw::thread::Policy::OTHER && pool.getSchedulingPriority() == 0, "policy-differs", nm);
        } catch (const std::exception &e) { c.violation("constraints-throw", nm + ": " + e.what()); }
        if (affinityOf(0) != mine) { cpu_set_t s; CPU_ZERO(&s); for (std::size_t i = 0; i < mine.size(); ++i) if (mine[i]) CPU_SET(i, &s); sched_setaffinity(0, sizeof s, &s); }
        VP_CHECK(pool.execute([] { return 5; }).get() == 5, "task-not-executed", nm);
        c.distinct(nm + std::to_string(mn) + "-" + std::to_string(mx));
    }
    for (std::uint64_t round = 0; round < vp::scaled(light ? 10 : 30); ++round) { // CPU bound: the threads are spread over the cores of the mask
        uint32_t n = 1 + static_cast<uint32_t>(r.below(4));
        std::string nm = "s" + std::to_string(round) + "x" + std::to_string(c.shard);
        c.crumb("spread", nm);
        auto mine = affinityOf(0);
        std::vector<bool> mask(mine.size(), false); std::size_t cores = 0;
        for (std::size_t i = 0; i < mine.size(); ++i) if (mine[i] && (cores == 0 || r.chance(60))) { mask[i] = true; ++cores; }
        BasicThreadPool<opencmw::CPU_BOUND> pool(nm, n, n);
        pool.waitUntilInitialised();
        try {
            pool.setAffinityMask(mask);
            VP_CHECK(affinityOf(0) == mine, "callers-affinity-changed", nm);
            std::vector<bool> all(mine.size(), false);
            for (auto t : poolThreads(nm)) { auto a = affinityOf(t); for (std::size_t i = 0; i < a.size(); ++i) { if (a[i] && !mask[i]) c.violation("pool-thread-outside-mask", nm); if (a[i]) all[i] = true; } }
            VP_CHECK(all == mask, "cores-not-used", nm + " " + std::to_string(n) + " threads, " + std::to_string(cores) + " cores");
        } catch (const std::exception &e) { c.violation("constraints-throw", nm + ": " + e.what() + " " + std::to_string(n) + " threads, " + std::to_string(cores) + " cores"); }
        if (affinityOf(0) != mine) { cpu_set_t s; CPU_ZERO(&s); for (std::size_t i = 0; i < mine.size(); ++i) if (mine[i]) CPU_SET(i, &s); sched_setaffinity(0, sizeof s, &s); }
        c.distinct(nm + std::to_string(n) + "/" + std::to_string(cores));
    }
}

void vp_main(vp::Ctx &c) {
    std::cout.setstate(std::ios::failbit);
    if (c.mode == "p01") for (std::uint64_t i = 0; i < vp::scaled(10); ++i) { p01ping<opencmw::CPU_BOUND>(c); if (i % 4 == 0) p01ping<opencmw::IO_BOUND>(c); }
    if (c.mode == "p01") for (std::uint64_t i = 0; i < vp::scaled(light ? 80 : 250); ++i) { if (i % 2) p01round<opencmw::IO_BOUND>(c, i); else p01round<opencmw::CPU_BOUND>(c, i); }
    else if (c.mode == "p02") for (std::uint64_t i = 0; i < vp::scaled(light ? 400 : 1000); ++i) { if (i % 2) p02round<opencmw::IO_BOUND>(c, i); else p02round<opencmw::CPU_BOUND>(c, i); }
    else p03(c);
}
