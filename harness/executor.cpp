// X01: task execution through the thread-per-task scheduler and executor; X02: event handler aggregation
#include <atomic>
#include <future>
#include <functional>
#include <disruptor/AggregateEventHandler.hpp>
#include <disruptor/BasicExecutor.hpp>
#include <disruptor/ThreadPerTaskScheduler.hpp>
#include "vp.hpp"
using namespace opencmw::disruptor;
using vp::ctx;

static void x01(std::uint64_t rounds) {
    auto &r = ctx().rng;
    for (std::uint64_t i = 0; i < rounds; ++i) {
        auto       sched = std::make_shared<ThreadPerTaskScheduler>();
        const bool startFirst = !r.chance(10);
        if (startFirst) sched->start(r.below(4));
        if (r.chance(20) && startFirst) sched->start();
        const int                      n = static_cast<int>(r.range(1, 24));
        std::vector<std::atomic<int>>  runs(static_cast<std::size_t>(n));
        std::vector<std::future<void>> fut;
        std::vector<int>               kind;
        std::atomic<bool>              release{ false };
        std::uint64_t                  plain[32] = {};
        BasicExecutor                  ex(sched);
        std::string                    plan;
        for (int k = 0; k < n; ++k) {
            const int  kd = static_cast<int>(r.below(4)); // 0 plain, 1 throws, 2 waits for release, 3 raw packaged task that throws
            kind.push_back(kd);
            plan += "ptwr"[kd];
            ctx().crumb("execute", plan);
            auto body = [&, k, kd] { plain[k] = static_cast<std::uint64_t>(k) + 1; runs[static_cast<std::size_t>(k)].fetch_add(1, std::memory_order_relaxed); if (kd == 2) while (!release) std::this_thread::yield(); if (kd == 1 || kd == 3) throw std::runtime_error("task failed"); };
            if (kd == 3) { std::packaged_task<void()> t(body); fut.push_back(sched->scheduleAndStart(std::move(t))); }
            else fut.push_back(ex.execute(body));
        }
        if (!startFirst) { // never started: nothing runs; stopping it is harmless
            sched->stop();
            sched.reset();
            ctx().eval();
            ctx().distinct(vp::fnv(plan + "/not-started"));
            continue;
        }
        // tasks are independent: those not waiting complete although others still wait
        for (int k = 0; k < n; ++k) if (kind[static_cast<std::size_t>(k)] != 2) {
            ctx().crumb("await", plan);
            fut[static_cast<std::size_t>(k)].wait(); // hang = violation
            VP_CHECK(runs[static_cast<std::size_t>(k)] == 1, "not-exactly-once", plan + " task " + std::to_string(k) + " ran " + std::to_string(runs[static_cast<std::size_t>(k)].load()));
            VP_CHECK(plain[k] == static_cast<std::uint64_t>(k) + 1, "effect-not-visible", plan); // completion publishes the task's effects
            bool threw = false;
            try { fut[static_cast<std::size_t>(k)].get(); } catch (const std::runtime_error &) { threw = true; } catch (...) { ctx().violation("wrong-error", plan); }
            VP_CHECK(threw == (kind[static_cast<std::size_t>(k)] == 3), "error-reporting", plan + " task " + std::to_string(k));
        } else VP_CHECK(!fut[static_cast<std::size_t>(k)].valid() || fut[static_cast<std::size_t>(k)].wait_for(std::chrono::seconds(0)) != std::future_status::ready, "completed-before-done", plan);
        release = true;
        if (r.chance(50)) for (int k = 0; k < n; ++k) if (kind[static_cast<std::size_t>(k)] == 2) fut[static_cast<std::size_t>(k)].wait();
        ctx().crumb("stop", plan);
        const auto before = n;
        sched->stop(); // joins every task thread
        sched->stop();
        int total = 0;
        for (auto &x : runs) { total += x.load(); VP_CHECK(x.load() <= 1, "not-exactly-once", plan + " after stop"); }
        for (int k = 0; k < n; ++k) if (kind[static_cast<std::size_t>(k)] == 2) {
            auto &f = fut[static_cast<std::size_t>(k)];
            VP_CHECK(f.wait_for(std::chrono::seconds(0)) == std::future_status::ready, "future-open-after-stop", plan);
            const bool broken = runs[static_cast<std::size_t>(k)] == 0;
            try { f.get(); VP_CHECK(!broken, "phantom-completion", plan); } catch (const std::future_error &) { VP_CHECK(broken, "lost-completion", plan); } catch (...) { ctx().violation("wrong-error", plan); }
        }
        (void) before;
        ctx().count("tasks", static_cast<std::uint64_t>(n));
        ctx().distinct(vp::fnv(plan));
        if (i % 50 == 0) ctx().sample("plan " + plan + " (p=plain t=throws w=waits r=raw task that throws)");
    }
}

struct Ev { std::vector<int> trace; };
static std::vector<std::string> *gLog = nullptr;
struct H : IEventHandler<Ev> { int id; explicit H(int i) : id(i) {} void onEvent(Ev &d, std::int64_t s, bool e) override { d.trace.push_back(id); gLog->push_back("e" + std::to_string(id) + ":" + std::to_string(s) + (e ? "E" : "-")); } };
struct HL : H, ILifecycleAware { using H::H; void onStart() override { gLog->push_back("s" + std::to_string(id)); } void onShutdown() override { gLog->push_back("x" + std::to_string(id)); } };
struct HT : HL { using HL::HL; void onEvent(Ev &d, std::int64_t s, bool e) override { H::onEvent(d, s, e); if (s % 3 == 0) throw std::logic_error("handler"); } };
static void x02(std::uint64_t rounds) {
    auto &r = ctx().rng;
    for (std::uint64_t i = 0; i < rounds; ++i) {
        std::vector<std::string> got, want;
        gLog = &got;
        std::vector<std::shared_ptr<IEventHandler<Ev>>> hs;
        std::vector<int> kinds;
        const int n = static_cast<int>(r.below(7));
        for (int k = 0; k < n; ++k) { const int kd = r.chance(8) ? 2 : static_cast<int>(r.below(2)); kinds.push_back(kd); if (kd == 0) hs.push_back(std::make_shared<H>(k)); else if (kd == 1) hs.push_back(std::make_shared<HL>(k)); else hs.push_back(std::make_shared<HT>(k)); }
        if (n > 1 && r.chance(20)) { hs.push_back(hs[0]); kinds.push_back(kinds[0]); } // the same handler twice
        auto ids = [&](std::size_t k) { return static_cast<int>(k) < n ? static_cast<int>(k) : 0; };
        AggregateEventHandler<Ev> agg(hs);
        hs.clear(); // the aggregate keeps its own references
        std::string hist;
        for (int s = 0; s < 12; ++s) {
            const auto op = r.below(5);
            hist += "SXeee"[op];
            ctx().crumb("aggregate", hist);
            if (op == 0) { agg.onStart(); for (std::size_t k = 0; k < kinds.size(); ++k) if (kinds[k]) want.push_back("s" + std::to_string(ids(k))); }
            else if (op == 1) { agg.onShutdown(); for (std::size_t k = 0; k < kinds.size(); ++k) if (kinds[k]) want.push_back("x" + std::to_string(ids(k))); }
            else {
                Ev ev; const auto seq = static_cast<std::int64_t>(r.next() >> 1); const bool e = r.chance(50);
                bool threw = false, wantThrow = false;
                std::vector<int> wt;
                try { agg.onEvent(ev, seq, e); } catch (const std::logic_error &) { threw = true; }
                for (std::size_t k = 0; k < kinds.size(); ++k) { wt.push_back(ids(k)); want.push_back("e" + std::to_string(ids(k)) + ":" + std::to_string(seq) + (e ? "E" : "-")); if (kinds[k] == 2 && seq % 3 == 0) { wantThrow = true; break; } }
                VP_CHECK(threw == wantThrow, "aggregate-error", hist);
                VP_CHECK(ev.trace == wt, "aggregate-same-event", hist);
            }
            VP_CHECK(got == want, "aggregate-order", hist);
        }
        ctx().distinct(vp::mix(vp::fnv(hist), static_cast<std::uint64_t>(n)));
        if (i % 499 == 0) ctx().sample(std::to_string(n) + " handlers, " + hist);
    }
}
void vp_main(vp::Ctx &c) {
    if (c.mode == "x01") x01(vp::scaled(c.env("VP_LIGHT").empty() ? 150 : 40));
    if (c.mode == "x02") x02(vp::scaled(4000));
}
