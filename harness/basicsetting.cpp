// T01: a setting shared by one real-time thread and many others -- untorn, fresh, no lost update; T02: the real-time side never waits
#include <array>
#include <cstring>
#include <utility>
#include <BasicSetting.hpp>
#include "vp.hpp"
using namespace opencmw;
using vp::ctx;

// under the race detector the monitors themselves must not order the threads
#ifdef __SANITIZE_THREAD__
constexpr auto ACQ = std::memory_order_relaxed, REL = std::memory_order_relaxed;
constexpr bool FRESH = false;
#else
constexpr auto ACQ = std::memory_order_acquire, REL = std::memory_order_release;
constexpr bool FRESH = true;
#endif
struct Val { // every word derives from the version
    std::uint64_t version = 0;
    std::array<std::uint64_t, 24> w{};
    std::string   text = "v0";
    Val() { set(0); }
    explicit Val(std::uint64_t v) { set(v); }
    void set(std::uint64_t v) { version = v; for (std::size_t i = 0; i < w.size(); ++i) w[i] = v * 1315423911ull + i; text = "value-with-a-heap-allocated-text-" + std::to_string(v); }
    bool ok() const { for (std::size_t i = 0; i < w.size(); ++i) if (w[i] != version * 1315423911ull + i) return false; return text == "value-with-a-heap-allocated-text-" + std::to_string(version); }
};
static void jitter(vp::Rng &r) { const auto k = r.below(10); if (k == 0) std::this_thread::yield(); else if (k == 1) { volatile int z = 0; for (int i = 0; i < 150; ++i) z = z + 1; } else if (k == 2 && r.chance(5)) std::this_thread::sleep_for(std::chrono::microseconds(80)); }

// mutable by the non-real-time threads, read by one real-time thread and the others
static void nonRtMutable(int nW, int iters) {
    BasicSetting<Val, MutableOption::NonRealTimeMutable> s;
    std::atomic<std::uint64_t> committed{ 0 }, added{ 0 }, rtReads{ 0 }, seenDistinct{ 0 };
    std::atomic<int>           live{ nW };
    std::vector<std::thread>   th;
    ctx().crumb("nonrt-mutable", std::to_string(nW));
    for (int t = 0; t < nW; ++t) th.emplace_back([&, t, seed = ctx().rng.next()] {
        vp::Rng r(seed);
        for (int i = 0; i < iters; ++i) {
            const auto k = r.below(10);
            if (k < 7) {
                std::uint64_t mine = 0;
                const auto    c    = committed.load(ACQ);
                {
                auto g = s.accessGuard<AccessType::NonRealTime>();
                if (!g->ok()) ctx().violation("nonrt:torn", "non-real-time thread acquired a torn value");
                if (FRESH && g->version < c) ctx().violation("nonrt:stale", "acquired version " + std::to_string(g->version) + " after " + std::to_string(c) + " was committed");
                g->set(mine = g->version + 1);
                jitter(r);
                }
                for (auto cur = committed.load(std::memory_order_relaxed); cur < mine && !committed.compare_exchange_weak(cur, mine, REL, std::memory_order_relaxed);) {}
                added.fetch_add(1, std::memory_order_relaxed);
            } else if (k < 9) {
                auto g = s.nonRealTimeAccessGuard();
                const auto v = g->version;
                jitter(r);
                if (!g->ok() || g->version != v) ctx().violation("nonrt:unstable", "value changed while held");
            } else {
                const Val &v = s.acquire<AccessType::NonRealTime>();
                if (!v.ok()) ctx().violation("nonrt:torn", "acquire() returned a torn value");
                s.release<AccessType::NonRealTime>();
            }
            ctx().eval();
        }
        --live;
    });
    // after each commit the version is visible to the real-time thread: tracked through a monitor that reads like any other thread
    std::thread rt([&, seed = ctx().rng.next()] {
        vp::Rng r(seed);
        std::uint64_t last = 0;
        while (live.load(std::memory_order_relaxed) > 0 || rtReads.load(std::memory_order_relaxed) < 200) {
            std::uint64_t v;
            const auto    before = committed.load(ACQ);
            if (r.chance(50)) {
                auto g = s.accessGuard<AccessType::RealTime>();
                v = g->version;
                if (!g->ok()) ctx().violation("rt:torn", "real-time thread acquired a torn value");
                if (r.chance(30)) jitter(r);
                if (g->version != v || !g->ok()) ctx().violation("rt:unstable", "value changed while the real-time thread held it");
            } else {
                const Val &x = s.acquire<AccessType::RealTime>();
                v = x.version;
                if (!x.ok()) ctx().violation("rt:torn", "real-time thread acquired a torn value");
                s.release<AccessType::RealTime>();
            }
            if (FRESH && v < before) ctx().violation("rt:stale", "version " + std::to_string(v) + " although " + std::to_string(before) + " had been committed");
            if (v < last) ctx().violation("rt:went-back", std::to_string(v) + " after " + std::to_string(last));
            if (v != last) seenDistinct.fetch_add(1, std::memory_order_relaxed);
            last = v;
            rtReads.fetch_add(1, std::memory_order_relaxed);
            ctx().eval();
            if (r.chance(20)) jitter(r);
        }
    });
    for (auto &x : th) x.join();
    rt.join();
    const auto total = added.load();
    { auto g = s.accessGuard<AccessType::NonRealTime>(); VP_CHECK(g->version == total && g->ok(), "lost-update", "final version " + std::to_string(g->version) + " after " + std::to_string(total) + " increments"); }
    { auto g = s.accessGuard<AccessType::RealTime>(); VP_CHECK(g->version == total && g->ok(), "rt-final", std::to_string(g->version) + "/" + std::to_string(total)); }
    s.replace<AccessType::NonRealTime>(total + 100);
    { auto g = s.realTimeAccessGuard(); VP_CHECK(g->version == total + 100 && g->ok(), "replace", std::to_string(g->version)); }
    ctx().count("rt_versions_observed", seenDistinct.load());
    ctx().distinct(vp::mix(seenDistinct.load(), vp::mix(static_cast<std::uint64_t>(nW), ctx().rng.next())));
}

// mutable by the real-time thread, read by many others
static void rtMutable(int nR, int iters) {
    BasicSetting<Val, MutableOption::RealTimeMutable> s;
    std::atomic<std::uint64_t> published{ 0 }, started{ 0 }, reads{ 0 }, seenDistinct{ 0 };
    std::atomic<bool>          done{ false };
    std::vector<std::thread>   th;
    ctx().crumb("rt-mutable", std::to_string(nR));
    for (int t = 0; t < nR; ++t) th.emplace_back([&, seed = ctx().rng.next()] {
        vp::Rng r(seed);
        std::uint64_t last = 0;
        while (!done.load(std::memory_order_relaxed) || last < published.load(std::memory_order_relaxed)) {
            const auto before = published.load(ACQ); // release completed before we acquire
            std::uint64_t v;
            {
                auto g = s.accessGuard<AccessType::NonRealTime>();
                v = g->version;
                if (!g->ok()) ctx().violation("reader:torn", "torn value");
                if (r.chance(40)) jitter(r);
                if (!g->ok() || g->version != v) ctx().violation("reader:unstable", "value changed while held");
            }
            if (FRESH && v < before) ctx().violation("reader:stale", "version " + std::to_string(v) + " although " + std::to_string(before) + " had been released");
            if (FRESH && v > started.load(ACQ)) ctx().violation("reader:future", "version never written");
            if (v < last) ctx().violation("reader:went-back", std::to_string(v) + " after " + std::to_string(last));
            if (v != last) seenDistinct.fetch_add(1, std::memory_order_relaxed);
            last = v;
            ctx().eval();
            reads.fetch_add(1, std::memory_order_relaxed);
            if (r.chance(10)) jitter(r);
        }
    });
    std::thread rt([&, seed = ctx().rng.next()] {
        vp::Rng r(seed);
        for (int i = 1; i <= iters; ++i) {
            const auto v = static_cast<std::uint64_t>(i);
            started.store(v, REL);
            if (r.chance(70)) {
                auto g = s.accessGuard<AccessType::RealTime>();
                if (g->version != v - 1 || !g->ok()) ctx().violation("rt:own-write-lost", "real-time thread reads version " + std::to_string(g->version) + " after writing " + std::to_string(v - 1));
                g->set(v);
                if (r.chance(30)) jitter(r);
            } else if (r.chance(50)) {
                Val &x = s.acquire<AccessType::RealTime>();
                x.set(v);
                s.release<AccessType::RealTime>();
            } else {
                s.replace<AccessType::RealTime>(v);
            }
            published.store(v, REL);
            if (r.chance(30)) jitter(r);
            ctx().eval();
        }
        done = true;
    });
    rt.join();
    for (auto &x : th) x.join();
    ctx().count("reader_versions_observed", seenDistinct.load());
    ctx().distinct(vp::mix(seenDistinct.load(), vp::mix(static_cast<std::uint64_t>(nR), ctx().rng.next())));
}

// T02: hold the other side; the real-time thread must get through anyway (a wait shows up as a hang)
static void rtNeverWaits(std::uint64_t rounds) {
    for (std::uint64_t i = 0; i < rounds; ++i) {
        {
            BasicSetting<Val, MutableOption::NonRealTimeMutable> s;
            std::atomic<int> st{ 0 };
            std::thread holder([&] { auto g = s.accessGuard<AccessType::NonRealTime>(); g->set(7); st = 1; while (st != 2) std::this_thread::yield(); });
            while (st != 1) std::this_thread::yield();
            ctx().crumb("rt-waits-on-writer");
            std::atomic<int> got{ 0 };
            std::thread rt([&] { for (int k = 0; k < 200; ++k) { auto g = s.accessGuard<AccessType::RealTime>(); if (g->version != 0 || !g->ok()) ctx().violation("uncommitted-visible", std::to_string(g->version)); ++got; } });
            rt.join();
            VP_CHECK(got == 200, "rt-blocked", "");
            st = 2; holder.join();
            auto g = s.accessGuard<AccessType::RealTime>();
            VP_CHECK(g->version == 7, "commit-lost", std::to_string(g->version));
        }
        {
            BasicSetting<Val, MutableOption::RealTimeMutable> s;
            std::atomic<int> st{ 0 };
            std::vector<std::thread> holders;
            for (int h = 0; h < 3; ++h) holders.emplace_back([&] { auto g = s.accessGuard<AccessType::NonRealTime>(); ++st; const auto v = g->version; while (st < 100) std::this_thread::yield(); if (g->version != v || !g->ok()) ctx().violation("held-value-changed", ""); });
            while (st < 1) std::this_thread::yield();
            ctx().crumb("rt-waits-on-reader");
            std::thread rt([&] { for (std::uint64_t k = 1; k <= 200; ++k) { if (k % 3) { auto g = s.accessGuard<AccessType::RealTime>(); g->set(k); } else s.replace<AccessType::RealTime>(k); } });
            rt.join();
            st = 100;
            for (auto &h : holders) h.join();
            auto g = s.accessGuard<AccessType::NonRealTime>();
            VP_CHECK(g->version == 200 && g->ok(), "rt-publish-lost", std::to_string(g->version));
            // reading on the real-time side must not undo what it published before
        }
        {
            BasicSetting<Val, MutableOption::RealTimeMutable> s;
            s.replace<AccessType::RealTime>(std::uint64_t(43));
            { auto g = s.accessGuard<AccessType::RealTime>(); VP_CHECK(g->version == 43 && g.get().version == 43 && std::as_const(g).get().version == 43, "rt-does-not-see-own-replace", std::to_string(g->version)); }
            auto g = s.accessGuard<AccessType::NonRealTime>();
            VP_CHECK(g->version == 43, "rt-read-undoes-replace", std::to_string(g->version));
        }
        // sequential histories: the last committed value wins on both sides
        {
            auto &r = ctx().rng;
            BasicSetting<Val, MutableOption::NonRealTimeMutable> a{ Val(5) };
            BasicSetting<Val, MutableOption::RealTimeMutable> b{ std::as_const(*std::make_unique<Val>(5)) };
            std::uint64_t ma = 5, mb = 5;
            std::string hist;
            for (int k = 0; k < 30; ++k) {
                const auto op = r.below(6); const auto v = r.below(1000);
                hist += static_cast<char>('a' + op);
                ctx().crumb("setting-model", hist);
                switch (op) {
                case 0: { auto g = a.accessGuard<AccessType::NonRealTime>(); VP_CHECK(g->version == ma && std::as_const(g).get().version == ma, "model-nonrt", hist); if (v % 3 == 0) g->set(v); else if (v % 3 == 1) g.get().set(v); else g = Val(v); ma = v; VP_CHECK(g.get().version == v, "own-write-invisible", hist); } break;
                case 1: { auto g = a.accessGuard<AccessType::RealTime>(); VP_CHECK(g->version == ma && g->ok(), "model-nonrt", hist); } break;
                case 2: a.replace<AccessType::NonRealTime>(v); ma = v; break;
                case 3: { auto g = b.accessGuard<AccessType::RealTime>(); VP_CHECK(g->version == mb && std::as_const(g).get().version == mb, "model-rt", hist); if (v % 3 == 0) g->set(v); else if (v % 3 == 1) g.get().set(v); else g = Val(v); mb = v; VP_CHECK(g.get().version == v, "own-write-invisible", hist); } break;
                case 4: { auto g = b.accessGuard<AccessType::NonRealTime>(); VP_CHECK(g->version == mb && g->ok(), "model-rt", hist); } break;
                case 5: b.replace<AccessType::RealTime>(v); mb = v; break;
                }
            }
            ctx().distinct(vp::fnv(hist));
            if (i % 50 == 0) ctx().sample("history " + hist);
        }
    }
}

void vp_main(vp::Ctx &c) {
    const bool light = !c.env("VP_LIGHT").empty();
    if (c.mode == "t01") {
        for (std::uint64_t i = 0; i < vp::scaled(light ? 60 : 200); ++i) { nonRtMutable(static_cast<int>(c.rng.range(1, 4)), light ? 300 : 1000); rtMutable(static_cast<int>(c.rng.range(1, 4)), light ? 600 : 2000); }
        ctx().sample("1 real-time thread against 1-4 others, 25-word values with heap text");
    }
    if (c.mode == "t02") rtNeverWaits(vp::scaled(400));
}
