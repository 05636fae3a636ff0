// A01 thread/process names and A02 CPU placement and scheduling: what is set is what the operating system reports, for the addressed
// thread only; refused requests are reported and change nothing. Everything is confined to threads/children of this process.
#include <array>
#include <atomic>
#include <ThreadAffinity.hpp>
#include <csignal>
#include <fstream>
#include <sys/syscall.h>
#include <condition_variable>
#include "vp.hpp"
using namespace opencmw;
using vp::ctx;

struct Parked { // a thread that waits until released
    std::atomic<bool> run{ true };
    std::atomic<long> tid{ 0 };
    std::thread       t{ [this] { tid = ::syscall(SYS_gettid); while (run) std::this_thread::sleep_for(std::chrono::milliseconds(1)); } };
    Parked() { while (!tid) std::this_thread::yield(); }
    ~Parked() { run = false; t.join(); }
    std::string comm() const { std::ifstream f("/proc/self/task/" + std::to_string(tid.load()) + "/comm"); std::string s; std::getline(f, s, '\0'); if (!s.empty() && s.back() == '\n') s.pop_back(); return s; }
    cpu_set_t   cpus() const { cpu_set_t s; CPU_ZERO(&s); ::sched_getaffinity(static_cast<pid_t>(tid.load()), sizeof s, &s); return s; }
    std::pair<int, int> sched() const { sched_param p{}; int pol = ::sched_getscheduler(static_cast<pid_t>(tid.load())); ::sched_getparam(static_cast<pid_t>(tid.load()), &p); return { pol, p.sched_priority }; }
};
struct Child { // a process of our own that just waits
    pid_t pid;
    Child() { std::fflush(nullptr); pid = ::fork(); if (pid == 0) { for (;;) ::pause(); } }
    ~Child() { ::kill(pid, SIGKILL); int st; ::waitpid(pid, &st, 0); }
    std::string comm() const { std::ifstream f("/proc/" + std::to_string(pid) + "/comm"); std::string s; std::getline(f, s); return s; }
};
static std::string selfComm() { std::ifstream f("/proc/self/task/" + std::to_string(::syscall(SYS_gettid)) + "/comm"); std::string s; std::getline(f, s, '\0'); if (!s.empty() && s.back() == '\n') s.pop_back(); return s; }

static void names(std::uint64_t n) {
    auto &r = ctx().rng;
    Parked a, b;
    const std::string al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_#./ :";
    for (std::uint64_t i = 0; i < n; ++i) {
        // the name is handed over as a view into a larger buffer: only the viewed characters count
        const auto  len  = r.chance(80) ? r.below(16) : r.below(40);
        std::string name = r.str(al, len, len);
        if (name.empty()) name = "n";
        const bool  fits = name.size() <= 15;
        const std::string bufText = name + (r.chance(70) ? r.str(al, 1, 10) : "");
        std::vector<char> exact(bufText.begin(), bufText.end());
        if (r.chance(70)) exact.push_back('\0');
        const std::string_view view(exact.data(), name.size());
        const auto beforeA = a.comm(), beforeB = b.comm(), beforeSelf = selfComm();
        const int  who = static_cast<int>(r.below(3));
        ctx().crumb("thread-name", name);
        bool threw = false;
        try {
            if (who == 0) thread::setThreadName(view, a.t); else if (who == 1) thread::setThreadName(view, b.t); else thread::setThreadName(view);
        } catch (const std::system_error &) { threw = true; }
        const auto want = threw ? (who == 0 ? beforeA : who == 1 ? beforeB : beforeSelf) : name.substr(0, 15);
        if (fits) VP_CHECK(!threw, "name-refused", name);
        VP_CHECK(a.comm() == (who == 0 ? want : beforeA) && b.comm() == (who == 1 ? want : beforeB) && selfComm() == (who == 2 ? want : beforeSelf), "thread-name",
                "set '" + name + "' on " + std::to_string(who) + ": now a='" + a.comm() + "' b='" + b.comm() + "' self='" + selfComm() + "'");
        VP_CHECK(thread::getThreadName(a.t) == a.comm() && thread::getThreadName(b.t) == b.comm() && thread::getThreadName() == selfComm(), "thread-name-get", thread::getThreadName(a.t) + "/" + a.comm());
        ctx().distinct(vp::mix(vp::fnv(name), static_cast<std::uint64_t>(who)));
        if (i % 97 == 0) ctx().sample("name '" + name + "'");
        if (i % 4 == 0) {
            const auto pn = r.str("abcXYZ012_-", 1, 24);
            ctx().crumb("process-name", pn);
            if (i % 16 == 0) { Child ch; const auto own = thread::getProcessName(); thread::setProcessName(pn, ch.pid); VP_CHECK(thread::getProcessName(ch.pid) == ch.comm() && thread::getProcessName() == own, "process-name-other", "set '" + pn + "' got '" + ch.comm() + "'"); }
            std::string pbuf = pn + r.str("abcXYZ012_-", 0, 9); // viewed inside a larger text
            std::vector<char> pexact(pbuf.begin(), pbuf.end());
            if (r.chance(70)) pexact.push_back('\0');
            thread::setProcessName(std::string_view(pexact.data(), pn.size()));
            VP_CHECK(thread::getProcessName() == pn.substr(0, 15) && thread::getProcessName(::getpid()) == pn.substr(0, 15), "process-name", "set '" + pn + "' got '" + thread::getProcessName() + "'");
        }
    }
    std::thread none;
    auto throws = [](auto f) { try { f(); return false; } catch (const std::system_error &) { return true; } };
    VP_CHECK(throws([&] { (void) thread::getThreadName(none); }) && throws([&] { thread::setThreadName("x", none); }), "uninitialised-accepted", "");
    VP_CHECK(thread::getProcessName(999999999) == "unknown_process" && throws([&] { thread::setProcessName("x", 999999999); }), "unknown-process", "");
}

static void placement(std::uint64_t n) {
    auto &r = ctx().rng;
    Parked a, b;
    cpu_set_t all = a.cpus();
    std::vector<std::size_t> usable;
    const auto hw = std::min<std::size_t>(std::thread::hardware_concurrency(), 128);
    for (std::size_t c = 0; c < hw; ++c) if (CPU_ISSET(c, &all)) usable.push_back(c);
    ctx().count("usable_cpus", usable.size());
    for (std::uint64_t i = 0; i < n; ++i) {
        std::vector<bool> mask(r.below(4) ? hw : r.below(2 * hw + 3));
        const auto        kind = r.below(6);
        for (std::size_t c = 0; c < mask.size(); ++c) mask[c] = kind == 0 ? false : kind == 1 ? true : r.chance(50);
        cpu_set_t want; CPU_ZERO(&want);
        bool any = false;
        for (auto c : usable) if (c < mask.size() && mask[c]) { CPU_SET(c, &want); any = true; }
        Parked         &x = r.chance(50) ? a : b;
        Parked         &y = &x == &a ? b : a;
        const cpu_set_t bx = x.cpus(), by = y.cpus();
        std::string     m;
        for (bool v : mask) m += v ? '1' : '0';
        ctx().crumb("thread-affinity", m);
        bool threw = false;
        try { thread::setThreadAffinity(mask, x.t); } catch (const std::system_error &) { threw = true; }
        const cpu_set_t ax = x.cpus(), ay = y.cpus();
        VP_CHECK(threw == !any, "affinity-verdict", "mask " + m + (threw ? " refused" : " accepted"));
        VP_CHECK(CPU_EQUAL(&ax, threw ? &bx : &want), "thread-affinity", "mask " + m);
        VP_CHECK(CPU_EQUAL(&ay, &by), "other-thread-moved", "mask " + m);
        const auto g = thread::getThreadAffinity(x.t);
        bool       eq = true;
        for (std::size_t c = 0; c < g.size(); ++c) eq = eq && g[c] == static_cast<bool>(CPU_ISSET(c, &ax));
        for (auto c : usable) eq = eq && c < g.size();
        VP_CHECK(eq, "thread-affinity-get", "mask " + m);
        if (any) ctx().distinct(vp::fnv(m) + (&x == &a));
        if (i % 97 == 0) ctx().sample("mask " + m);
        if (i % 16 == 0 && usable.size() >= 2) { // whole-process placement, in a child so that this process is not confined
            const auto res = vp::isolated([&] {
                std::array<bool, 4> p{ usable[0] == 0, false, false, false };
                if (!p[0]) return 0;
                p[1] = r.chance(50) && usable.size() > 1 && usable[1] == 1;
                if (!thread::setProcessAffinity(p)) return 1;
                cpu_set_t s; CPU_ZERO(&s); sched_getaffinity(0, sizeof s, &s);
                if (!CPU_ISSET(0, &s) || static_cast<bool>(CPU_ISSET(1, &s)) != p[1] || CPU_COUNT(&s) != 1 + p[1]) return 2;
                const auto v = thread::getProcessAffinity();
                for (std::size_t c = 0; c < v.size(); ++c) if (v[c] != (c == 0 || (c == 1 && p[1]))) return 3;
                return 0;
            });
            VP_CHECK(res.empty(), "process-affinity", res);
            // another process, masks of several fixed sizes: the addressed process is confined, this one is not
            Child ch;
            const auto one = [&]<std::size_t N>(std::array<bool, N> q) {
                for (auto &v : q) v = r.chance(40);
                cpu_set_t w; CPU_ZERO(&w); bool some = false;
                for (auto c : usable) if (c < N && q[c]) { CPU_SET(c, &w); some = true; }
                cpu_set_t b0, s0; CPU_ZERO(&b0); CPU_ZERO(&s0); sched_getaffinity(ch.pid, sizeof b0, &b0); sched_getaffinity(0, sizeof s0, &s0);
                bool t3 = false, ok3 = true;
                try { ok3 = thread::setProcessAffinity(q, ch.pid); } catch (const std::system_error &) { t3 = true; }
                cpu_set_t b1, s1; CPU_ZERO(&b1); CPU_ZERO(&s1); sched_getaffinity(ch.pid, sizeof b1, &b1); sched_getaffinity(0, sizeof s1, &s1);
                VP_CHECK(t3 == !some && ok3 && CPU_EQUAL(&b1, some ? &w : &b0) && CPU_EQUAL(&s0, &s1), "process-affinity-other", "array of " + std::to_string(N));
                const auto v = thread::getProcessAffinity(ch.pid);
                bool same = true;
                for (std::size_t c = 0; c < v.size(); ++c) same = same && v[c] == static_cast<bool>(CPU_ISSET(c, &b1));
                for (auto c : usable) same = same && c < v.size();
                VP_CHECK(same, "process-affinity-get-other", "array of " + std::to_string(N));
            };
            one(std::array<bool, 1>{}); one(std::array<bool, 3>{}); one(std::array<bool, 8>{}); one(std::array<bool, 64>{}); one(std::array<bool, 200>{});
        }
    }
    for (std::uint64_t i = 0; i < n; ++i) {
        const auto pol  = static_cast<thread::Policy>(r.range(-1, 2));
        const int  prio = static_cast<int>(r.chance(60) ? r.range(-2, 3) : r.range(-200, 200));
        Parked    &x    = r.chance(50) ? a : b;
        Parked    &y    = &x == &a ? b : a;
        const auto bx = x.sched(), by = y.sched();
        const bool inRange = pol != thread::UNKNOWN && prio >= ::sched_get_priority_min(pol) && prio <= ::sched_get_priority_max(pol);
        ctx().crumb("scheduling", std::to_string(pol) + "/" + std::to_string(prio));
        bool threw = false;
        int  code  = 0;
        try { thread::setThreadSchedulingParameter(pol, prio, x.t); } catch (const std::system_error &e) { threw = true; code = e.code().value(); }
        const auto ax = x.sched();
        const auto d  = "policy " + std::to_string(pol) + " priority " + std::to_string(prio) + (threw ? " refused" : " accepted") + ", now " + std::to_string(ax.first) + "/" + std::to_string(ax.second);
        if (!inRange) VP_CHECK(threw, "out-of-range-accepted", d);
        if (!inRange && pol != thread::UNKNOWN) VP_CHECK(code == thread::THREAD_VALUE_RANGE, "out-of-range-code", d + " code " + std::to_string(code));
        if (pol == thread::OTHER && prio == 0) VP_CHECK(!threw, "default-policy-refused", d);
        VP_CHECK(ax == (threw ? bx : std::pair<int, int>(pol, prio)), "scheduling", d);
        VP_CHECK(y.sched() == by, "other-thread-rescheduled", d);
        const auto g = thread::getThreadSchedulingParameter(x.t);
        VP_CHECK(static_cast<int>(g.policy) == ax.first && g.priority == ax.second, "scheduling-get", d);
        ctx().count(threw ? "sched_refused" : "sched_applied");
        if (!threw) thread::setThreadSchedulingParameter(thread::OTHER, 0, x.t);
        ctx().distinct(vp::mix(static_cast<std::uint64_t>(pol + 2), static_cast<std::uint64_t>(prio + 500)));
        if (i % 8 == 0) {
            const auto res = vp::isolated([&] {
                bool t2 = false; int c2 = 0;
                sched_param p0{}; const int q0 = sched_getscheduler(0); sched_getparam(0, &p0);
                try { thread::setProcessSchedulingParameter(pol, prio); } catch (const std::system_error &e) { t2 = true; c2 = e.code().value(); }
                sched_param p1{}; const int q1 = sched_getscheduler(0); sched_getparam(0, &p1);
                if (!inRange && !t2) return 1;
                if (!inRange && pol != thread::UNKNOWN && c2 != thread::THREAD_VALUE_RANGE) return 2;
                if (t2 && (q0 != q1 || p0.sched_priority != p1.sched_priority)) return 3;
                if (!t2 && (q1 != pol || p1.sched_priority != prio)) return 4;
                const auto g2 = thread::getProcessSchedulingParameter();
                return static_cast<int>(g2.policy) == q1 && g2.priority == p1.sched_priority ? 0 : 5;
            });
            VP_CHECK(res.empty(), "process-scheduling", d + ": " + res);
        }
    }
    std::thread none;
    auto throws = [](auto f) { try { f(); return false; } catch (const std::system_error &) { return true; } };
    VP_CHECK(throws([&] { (void) thread::getThreadAffinity(none); }) && throws([&] { thread::setThreadAffinity(std::vector<bool>{ true }, none); }) && throws([&] { (void) thread::getThreadSchedulingParameter(none); })
                    && throws([&] { thread::setThreadSchedulingParameter(thread::OTHER, 0, none); }), "uninitialised-accepted", "");
    VP_CHECK(throws([&] { (void) thread::getProcessAffinity(-1); }) && throws([&] { thread::setProcessAffinity(std::array<bool, 1>{ true }, -1); }) && throws([&] { (void) thread::getProcessSchedulingParameter(-1); })
                    && throws([&] { thread::setProcessSchedulingParameter(thread::OTHER, 0, -1); }) && throws([&] { (void) thread::getProcessAffinity(999999999); }) && throws([&] { (void) thread::getProcessSchedulingParameter(999999999); }), "bad-process-accepted", "");
}
void vp_main(vp::Ctx &c) {
    if (c.mode == "a01") names(vp::scaled(400));
    if (c.mode == "a02") placement(vp::scaled(250));
}
