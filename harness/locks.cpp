// L01 reader/writer exclusion, L02 non-blocking attempts & counts, L03 mutual exclusion of the spin mutex, L04 bounded spinning
#include <ReaderWriterLock.hpp>
#include <chrono>
#include <limits>
#include <stdexcept>
#include <SpinWait.hpp>
#include <array>
#include <thread>
#include "vp.hpp"
using namespace opencmw;
using vp::ctx;
using enum ReaderWriterLockType;
using Clk = std::chrono::steady_clock;

static void jitter(vp::Rng &r) {
    switch (r.below(12)) {
    case 0: std::this_thread::yield(); break;
    case 1: { volatile int z = 0; for (int i = static_cast<int>(r.below(200)); i > 0; --i) z = z + 1; } break;
    case 2: if (r.chance(3)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(200))); break;
    default: break;
    }
}

// L01: concurrent histories. Readers and writers are never inside together, and what a writer stored before releasing is visible to
// whoever enters on the other side afterwards (checked twice: by the value monitor and by the race detector on the plain data).
static void l01(std::uint64_t rounds) {
    for (std::uint64_t round = 0; round < rounds; ++round) {
        ReaderWriterLock              lock;
        const int                     nT   = static_cast<int>(ctx().rng.range(2, 8));
        const int                     wPct = static_cast<int>(ctx().rng.pick(std::vector<int>{ 5, 20, 50, 80 }));
        const int                     iters = 1500;
        std::atomic<int>              rIn{ 0 }, wIn{ 0 };
        std::atomic<std::uint64_t>    order{ 0 };
        struct alignas(64) Cell { std::uint64_t v = 0, inv = ~0ull; };
        std::vector<Cell>             data(static_cast<std::size_t>(nT)); // plain memory: one cell per potential writer (several writers may hold together)
        std::vector<std::atomic<std::uint64_t>> released(static_cast<std::size_t>(nT));
        for (auto &x : released) x = 0;
        std::atomic<std::uint64_t>    transitions{ 0 }, maxR{ 0 }, maxW{ 0 };
        std::vector<std::thread>      th;
        ctx().crumb("rwlock-stress", "threads " + std::to_string(nT) + " writers% " + std::to_string(wPct));
        for (int t = 0; t < nT; ++t) {
            th.emplace_back([&, t, seed = ctx().rng.next()] {
                vp::Rng r(seed);
                for (int i = 0; i < iters; ++i) {
                    const bool w    = r.chance(wPct);
                    const int  kind = static_cast<int>(r.below(3)); // lock, tryLock, guard
                    auto body = [&](bool isW) {
                        ctx().eval();
                        if (isW) {
                            const int n = wIn.fetch_add(1, std::memory_order_relaxed) + 1;
                            if (rIn.load(std::memory_order_relaxed) != 0) ctx().violation("reader-and-writer-inside", "writer entered while readers inside");
                            if (static_cast<std::uint64_t>(n) > maxW.load(std::memory_order_relaxed)) maxW.store(static_cast<std::uint64_t>(n), std::memory_order_relaxed);
                            auto &c = data[static_cast<std::size_t>(t)];
                            c.v++; jitter(r); c.inv = ~c.v;
                            if (rIn.load(std::memory_order_relaxed) != 0) ctx().violation("reader-and-writer-inside", "reader entered while writer inside");
                            released[static_cast<std::size_t>(t)].store(c.v, std::memory_order_relaxed);
                            wIn.fetch_sub(1, std::memory_order_relaxed);
                        } else {
                            const int n = rIn.fetch_add(1, std::memory_order_relaxed) + 1;
                            if (wIn.load(std::memory_order_relaxed) != 0) ctx().violation("reader-and-writer-inside", "reader entered while writers inside");
                            if (static_cast<std::uint64_t>(n) > maxR.load(std::memory_order_relaxed)) maxR.store(static_cast<std::uint64_t>(n), std::memory_order_relaxed);
                            for (std::size_t k = 0; k < data.size(); ++k) {
                                const auto known = released[k].load(std::memory_order_relaxed);
                                const auto a     = data[k].v;
                                if (k == 0) jitter(r);
                                const auto b = data[k].inv;
                                if (a != 0 && a != ~b) ctx().violation("torn-read", "reader saw a half-written value");
                                if (a < known) ctx().violation("stale-read", "reader does not see a value released before it entered");
                            }
                            if (wIn.load(std::memory_order_relaxed) != 0) ctx().violation("reader-and-writer-inside", "writer entered while reader inside");
                            rIn.fetch_sub(1, std::memory_order_relaxed);
                        }
                    };
                    if (w) {
                        if (kind == 0) { const auto n = lock.lock<WRITE>(); if (n >= 0) ctx().violation("lock-count", "write lock returned " + std::to_string(n)); body(true); lock.unlock<WRITE>(); }
                        else if (kind == 1) { if (lock.tryLock<WRITE>()) { body(true); lock.unlock<WRITE>(); } }
                        else { auto g = lock.scopedGuard<WRITE>(); body(true); }
                    } else {
                        if (kind == 0) { const auto n = lock.lock<READ>(); if (n <= 0) ctx().violation("lock-count", "read lock returned " + std::to_string(n)); body(false); lock.unlock<READ>(); }
                        else if (kind == 1) { if (lock.tryLock<READ>()) { body(false); lock.unlock<READ>(); } }
                        else { try { auto g = lock.scopedGuard<READ>(); body(false); if (r.chance(20)) throw 1; } catch (int) {} }
                    }
                    jitter(r);
                }
            });
        }
        for (auto &x : th) x.join();
        VP_CHECK(lock.value() == 0, "not-released", "value " + std::to_string(lock.value()) + " after all users left");
        VP_CHECK(lock.tryLock<WRITE>() && lock.unlock<WRITE>() == 0 && lock.tryLock<READ>() && lock.unlock<READ>() == 0, "unusable-after", "");
        ctx().count("max_concurrent_readers_seen", maxR.load());
        ctx().count("max_concurrent_writers_seen", maxW.load());
        ctx().distinct(vp::mix(vp::mix(static_cast<std::uint64_t>(nT), static_cast<std::uint64_t>(wPct)), vp::mix(maxR.load() * 64 + maxW.load(), round)));
        if (round == 0) ctx().sample(std::to_string(nT) + " threads, " + std::to_string(wPct) + "% writers, up to " + std::to_string(maxR.load()) + " readers / " + std::to_string(maxW.load()) + " writers inside together");
    }
}

// L02: histories with a sequential model: who may enter, what the counts are; attempts never block and never change a lock they fail to get
static void l02(std::uint64_t rounds) {
    auto &r = ctx().rng;
    for (std::uint64_t round = 0; round < rounds; ++round) {
        ReaderWriterLock lock;
        std::int64_t     model = 0; // >0 readers, <0 writers
        std::string      hist;
        std::uint64_t    h = 0;
        for (int s = 0; s < 40; ++s) {
            const auto op = r.below(8);
            hist += "rwRWuvgG"[op];
            ctx().crumb("rwlock-model", hist);
            auto bad = [&](const std::string &k, std::int64_t got) { ctx().violation(k, "history " + hist + " got " + std::to_string(got) + " model " + std::to_string(model)); };
            ctx().eval();
            switch (op) {
            case 0: { const bool ok = lock.tryLock<READ>(); if (ok != (model >= 0)) bad("tryLock-read", ok); if (ok) ++model; } break;
            case 1: { const bool ok = lock.tryLock<WRITE>(); if (ok != (model <= 0)) bad("tryLock-write", ok); if (ok) --model; } break;
            case 2: if (model >= 0) { const auto n = lock.lock<READ>(); ++model; if (n != model) bad("lock-read-count", n); } break;
            case 3: if (model <= 0) { const auto n = lock.lock<WRITE>(); --model; if (n != model) bad("lock-write-count", n); } break;
            case 4: if (model > 0) { const auto n = lock.unlock<READ>(); --model; if (n != model) bad("unlock-read-count", n); } break;
            case 5: if (model < 0) { const auto n = lock.unlock<WRITE>(); ++model; if (n != model) bad("unlock-write-count", n); } break;
            case 6: if (model >= 0) { auto g = lock.scopedGuard<READ>(); if (lock.value() != model + 1) bad("guard-read", lock.value()); if (lock.tryLock<WRITE>()) bad("write-under-read-guard", 1); } break;
            case 7: if (model <= 0) { auto g = lock.scopedGuard<WRITE>(); if (lock.value() != model - 1) bad("guard-write", lock.value()); if (lock.tryLock<READ>()) bad("read-under-write-guard", 1); } break;
            }
            if (lock.value() != model) { bad("value", lock.value()); break; }
            h = vp::mix(h, op);
        }
        ctx().distinct(h);
        if (round % 999 == 0) ctx().sample("history " + hist);
        // an attempt from another thread while the other side holds: fails, returns promptly, leaves the holder untouched; the blocked
        // lock() gets in after the release
        if (round % 64 == 0) {
            const bool w = r.chance(50);
            ReaderWriterLock l2;
            if (w) l2.lock<WRITE>(); else l2.lock<READ>();
            std::atomic<int> in{ 0 };
            ctx().crumb("rwlock-handover", w ? "writer holds" : "reader holds");
            std::thread t([&] {
                for (int k = 0; k < 50; ++k) { if (w ? l2.tryLock<READ>() : l2.tryLock<WRITE>()) ctx().violation("attempt-succeeded-while-held", w ? "read under write" : "write under read"); }
                in = 1;
                if (w) { l2.lock<READ>(); in = 2; l2.unlock<READ>(); } else { l2.lock<WRITE>(); in = 2; l2.unlock<WRITE>(); }
            });
            while (in.load() != 1) std::this_thread::yield();
            std::this_thread::sleep_for(std::chrono::microseconds(300));
            VP_CHECK(in.load() == 1, "blocked-lock-entered", "lock() returned while the other side still held");
            VP_CHECK(l2.value() == (w ? -1 : 1), "attempts-changed-count", std::to_string(l2.value()));
            if (w) l2.unlock<WRITE>(); else l2.unlock<READ>();
            t.join(); // progress: a hang here is caught by the time limit
            VP_CHECK(l2.value() == 0, "handover-count", std::to_string(l2.value()));
        }
    }
}

template<typename M>
static void mutexStress(const char *name, int nT, int iters) {
    M                        m;
    std::uint64_t            plain = 0, a = 0, b = 0;
    std::atomic<int>         inside{ 0 };
    std::vector<std::thread> th;
    ctx().crumb(std::string("mutex-stress-") + name, std::to_string(nT));
    for (int t = 0; t < nT; ++t) th.emplace_back([&, seed = ctx().rng.next()] {
        vp::Rng r(seed);
        for (int i = 0; i < iters; ++i) {
            auto body = [&] {
                ctx().eval();
                if (inside.fetch_add(1, std::memory_order_relaxed) != 0) ctx().violation(std::string("two-inside-") + name, "");
                if (a != b) ctx().violation(std::string("torn-") + name, "");
                ++a; ++plain; jitter(r); ++b;
                if (inside.fetch_sub(1, std::memory_order_relaxed) != 1) ctx().violation(std::string("two-inside-") + name, "");
            };
            if (r.chance(50)) { m.lock(); body(); m.unlock(); }
            else { try { std::scoped_lock g(m); body(); if (r.chance(10)) throw 1; } catch (int) {} }
            if (r.chance(30)) jitter(r);
        }
    });
    for (auto &x : th) x.join();
    VP_CHECK(plain == static_cast<std::uint64_t>(nT) * static_cast<std::uint64_t>(iters), std::string("lost-update-") + name, std::to_string(plain));
    m.lock(); m.unlock();
    ctx().distinct(vp::mix(vp::fnv(name), static_cast<std::uint64_t>(nT)) ^ ctx().rng.next());
}
static void l03(std::uint64_t rounds) {
    for (std::uint64_t i = 0; i < rounds; ++i) {
        const int nT = static_cast<int>(ctx().rng.range(2, 8));
        mutexStress<AtomicMutex<>>("plain", nT, 600);
        mutexStress<AtomicMutex<SpinWait<10, 5, 20>>>("spinwait", nT, 600);
        mutexStress<AtomicMutex<SpinWait<0, 2, 4>>>("spinwait0", nT, 300);
    }
    // hand-over: a waiter gets in after release
    for (int i = 0; i < 20; ++i) {
        AtomicMutex<> m; std::atomic<int> s{ 0 };
        m.lock();
        ctx().crumb("mutex-handover");
        std::thread t([&] { s = 1; m.lock(); s = 2; m.unlock(); });
        while (s != 1) std::this_thread::yield();
        std::this_thread::sleep_for(std::chrono::microseconds(200));
        VP_CHECK(s == 1, "entered-while-held", "");
        m.unlock(); t.join();
        VP_CHECK(s == 2, "handover", "");
    }
    ctx().sample("counter under the mutex with 2-8 threads, exceptions thrown inside guards");
}

// ---- L04 spinning
static std::atomic<std::uint64_t> gYields{ 0 }, gSleeps{ 0 }, gLongSleeps{ 0 };
#ifdef VP_INTERPOSE
extern "C" int sched_yield() { gYields++; return 0; }
extern "C" int nanosleep(const timespec *a, timespec *) { gSleeps++; if (a->tv_sec > 0 || a->tv_nsec > 0) gLongSleeps++; return 0; }
extern "C" int clock_nanosleep(clockid_t, int, const timespec *a, timespec *) { gSleeps++; if (a->tv_sec > 0 || a->tv_nsec > 0) gLongSleeps++; return 0; }
#endif
template<int Y, int S0, int S1>
static void spinModel() {
    SpinWait<Y, S0, S1> w;
    std::int32_t        n = 0;
    auto               &r = ctx().rng;
    ctx().crumb("spin-model", std::to_string(Y));
    int sinceSleep = 0, idle = 0;
    for (int i = 0; i < 400; ++i) {
        VP_CHECK(w.count() == n, "spin-count", "count " + std::to_string(w.count()) + " after " + std::to_string(n) + " spins");
        VP_CHECK(w.nextSpinWillYield() == (n > Y), "spin-will-yield", "count " + std::to_string(n) + " threshold " + std::to_string(Y));
        const auto y = gYields.load(), s = gSleeps.load(), l = gLongSleeps.load();
        const bool will = w.nextSpinWillYield();
        w.spinOnce();
        ++n;
        if (will) {
            // N.B. a 0 ms sleep may legitimately be a no-op, two idle-free announced spins in a row are not
            idle = gYields.load() + gSleeps.load() > y + s ? 0 : idle + 1;
            VP_CHECK(idle < 2, "no-yield", "consecutive spins announced to yield neither yielded nor slept");
            sinceSleep = gLongSleeps.load() > l ? 0 : sinceSleep + 1;
            VP_CHECK(sinceSleep <= 2 * S1 + 20, "no-sleep", "more than " + std::to_string(2 * S1 + 20) + " yielding spins without putting the thread to sleep");
        } else VP_CHECK(gYields.load() + gSleeps.load() == y + s, "early-yield", "gave up the processor before the threshold");
        if (r.chance(1)) { w.reset(); n = 0; sinceSleep = 0; }
    }
    w.reset();
    VP_CHECK(w.count() == 0 && !w.nextSpinWillYield(), "reset", "");
    ctx().distinct(vp::mix(static_cast<std::uint64_t>(Y) * 100 + S0, S1));
}
static void l04time(std::uint64_t rounds) {
    auto &r = ctx().rng;
    SpinWait<> w;
    for (std::uint64_t i = 0; i < rounds; ++i) {
        { // unlimited wait: returns only when the condition holds
            std::atomic<bool> flag{ false };
            const auto        ms = r.range(0, 30);
            ctx().crumb("spin-unlimited", std::to_string(ms));
            std::thread t([&] { std::this_thread::sleep_for(std::chrono::milliseconds(ms)); flag = true; });
            auto       cond = [&]() noexcept -> bool { return flag.load(); };
            const bool a    = r.chance(50) ? w.spinUntil(cond) : w.spinUntil(cond, -1);
            VP_CHECK(a && flag.load(), "unlimited-wait-gave-up", "condition due after " + std::to_string(ms) + " ms; returned " + (a ? "true" : "false"));
            t.join();
        }
        for (const std::int64_t to : { std::int64_t(1), std::int64_t(2), r.range(3, 25) }) { // limited wait on a condition that never holds
            bool ok = false;
            std::string why;
            for (int attempt = 0; attempt < 2 && !ok; ++attempt) { // a stalled machine gets a second chance
                const auto t0 = Clk::now();
                ctx().crumb("spin-timeout", std::to_string(to));
                const bool a = w.spinUntil([&]() noexcept -> bool { return Clk::now() - t0 > std::chrono::seconds(8); }, to);
                const auto el = std::chrono::duration<double, std::milli>(Clk::now() - t0).count();
                if (!a && el < static_cast<double>(to) - 1.001) { ctx().violation("gave-up-early", "timeout " + std::to_string(to) + " ms gave up after " + std::to_string(el) + " ms"); break; }
                if (a) why = "timeout of " + std::to_string(to) + " ms ignored for 8 s"; else ok = true;
            }
            VP_CHECK(ok, "timeout-ignored", why);
            ctx().distinct(static_cast<std::uint64_t>(to) * 977);
        }
        { // zero timeout: exactly one look, no waiting; the verdict is the last look
            int  calls = 0;
            bool v     = r.chance(50);
            auto cond  = [&]() noexcept -> bool { ++calls; return v; };
            VP_CHECK(w.spinUntil(cond, 0) == v && calls == 1, "zero-timeout", std::to_string(calls));
            int  need  = static_cast<int>(r.range(1, 60)), n = 0;
            bool last  = false;
            auto cond2 = [&]() noexcept -> bool { return last = ++n >= need; };
            VP_CHECK(w.spinUntil(cond2, 60000) && last && n == need, "verdict", std::to_string(n) + "/" + std::to_string(need));
        }
        bool threw = false;
        try { w.spinUntil([]() noexcept -> bool { return true; }, -2 - static_cast<std::int64_t>(r.below(100))); } catch (const std::out_of_range &) { threw = true; }
        VP_CHECK(threw, "negative-timeout-accepted", "");
        if (i == 0) ctx().sample("unlimited wait released after 0-30 ms; limits 1,2,3..25 ms on a condition that never holds");
    }
}

void vp_main(vp::Ctx &c) {
    if (c.mode == "l01") l01(vp::scaled(c.env("VP_LIGHT").empty() ? 60 : 12));
    if (c.mode == "l02") l02(vp::scaled(4000));
    if (c.mode == "l03") l03(vp::scaled(c.env("VP_LIGHT").empty() ? 40 : 8));
    if (c.mode == "l04") { for (std::uint64_t i = 0; i < vp::scaled(20); ++i) { spinModel<10, 5, 20>(); spinModel<0, 5, 20>(); spinModel<10, 3, 7>(); spinModel<5, 2, 4>(); } ctx().sample("spin counters with thresholds 0,5,10"); }
    if (c.mode == "l04t") l04time(vp::scaled(6));
}
