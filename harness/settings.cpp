// T03 setting history and staged transactions (sequential model), T04 the same under concurrency, T05 settings per timing context.
#include "vp.hpp"
#include <deque>
#include <optional>
#include <Transactions.hpp>

using namespace opencmw;
using vp::ctx;
using Clock = std::chrono::system_clock;
using TS    = Clock::time_point;
using namespace std::chrono_literals;

static const bool LIGHT = !vp::Ctx::env("VP_LIGHT").empty();
static const std::uint64_t SALT = 0x5bd1e9955bd1e995ull;

struct Val { // move-only with a redundant copy, so that a torn, moved-from or freed value shows
    std::uint64_t                  id = 0;
    std::uint64_t                  chk = SALT;
    std::unique_ptr<std::uint64_t> heap = std::make_unique<std::uint64_t>(0);
    Val() = default;
    explicit Val(std::uint64_t v) : id(v), chk(v ^ SALT), heap(std::make_unique<std::uint64_t>(v)) {}
    Val(Val &&o) noexcept : id(std::exchange(o.id, ~0ull)), chk(std::exchange(o.chk, 0)), heap(std::move(o.heap)) {}
    Val &operator=(Val &&o) noexcept { id = std::exchange(o.id, ~0ull); chk = std::exchange(o.chk, 0); heap = std::move(o.heap); return *this; }
    Val(const Val &) = delete;
    bool ok() const { return chk == (id ^ SALT) && heap && *heap == id; }
};

static std::string str(std::uint64_t v) { return std::to_string(v); }

// ---------------------------------------------------------------- T03
template<std::size_t N>
struct Model {
    struct E { std::uint64_t id; TS since; };
    std::deque<E>                                     hist;
    std::vector<std::pair<std::string, std::uint64_t>> pending;
    void publish(std::uint64_t id, TS now) {
        hist.push_back({ id, now });
        while (hist.size() > N - 8 + 1) hist.pop_front();
    }
};

template<std::size_t N>
static void history(int steps) {
    auto &r = ctx().rng;
    auto  pre = Clock::now();
    SettingBase<Val, Val, std::string, N> s;
    Model<N> m;
    m.hist.push_back({ 0, s.get().validSince });
    VP_CHECK(m.hist[0].since >= pre && m.hist[0].since <= Clock::now(), "initial-time", "initial value not valid since construction");
    std::string   log;
    std::uint64_t next = 1;
    TS            base = Clock::now();
    struct Held { typename SettingBase<Val, Val, std::string, N>::Node node; std::uint64_t id; };
    std::vector<Held> held;
    auto tok = [&] { return "t" + str(r.below(5)); };
    for (int i = 0; i < steps; ++i) {
        const auto op = r.below(12);
        const TS   at = r.chance(70) ? Clock::now() : base + std::chrono::microseconds(r.range(-5000, 5000)) * 1000;
        log += static_cast<char>('a' + op);
        ctx().crumb("history", log);
        switch (op) {
        case 0: case 1: {
            auto res = s.commit(Val(next), at);
            VP_CHECK(res.isCommitted && res.timeStamp == at, "commit-result", log);
            m.publish(next++, at);
            break; }
        case 2: {
            auto res = s.commit(Val(next));
            VP_CHECK((res.isCommitted && res.timeStamp >= base && res.timeStamp <= Clock::now()), "commit-result", log);
            m.publish(next++, res.timeStamp);
            break; }
        case 3: case 4: {
            const auto t = tok();
            log += t;
            auto res = s.stage(Val(next), t, at);
            VP_CHECK(!res.isCommitted && res.timeStamp == at, "stage-result", log);
            auto it = std::ranges::find_if(m.pending, [&](auto &p) { return p.first == t; });
            if (it != m.pending.end()) it->second = next; else m.pending.emplace_back(t, next);
            ++next;
            break; }
        case 5: {
            const auto t = tok();
            log += t;
            auto res = s.commit(t, at);
            auto it = std::ranges::find_if(m.pending, [&](auto &p) { return p.first == t; });
            VP_CHECK(res.isCommitted == (it != m.pending.end()), "commit-token-result", log);
            if (it != m.pending.end()) { m.publish(it->second, at); m.pending.erase(it); }
            break; }
        case 6: {
            if (!r.chance(30)) break;
            auto res = s.commit(std::string(), at);
            VP_CHECK(res.isCommitted == !m.pending.empty(), "commit-all-result", log);
            for (auto &p : m.pending) m.publish(p.second, at);
            m.pending.clear();
            break; }
        case 7: {
            const auto t = r.chance(85) ? tok() : std::string();
            log += t;
            const bool res = s.retireStaged(t);
            const auto n = std::erase_if(m.pending, [&](auto &p) { return t.empty() || p.first == t; });
            VP_CHECK(res == (n > 0), "retire-staged-result", log);
            break; }
        case 8: {
            const auto id = next++;
            const bool res = s.modifySetting([&](const Val &old) { if (old.id != m.hist.back().id || !old.ok()) ctx().violation("modify-old", log); return Val(id); }, at);
            VP_CHECK(res, "modify-result", log);
            m.publish(id, at);
            break; }
        case 9: { // a modification that fails changes nothing and is not reported as done
            bool claimed = false;
            try { claimed = s.modifySetting([&](const Val &) -> Val { throw std::runtime_error("refused"); }, at); } catch (const std::runtime_error &) {}
            VP_CHECK(!claimed, "failed-modify-claimed", log);
            break; }
        case 10: if (!m.hist.empty()) { held.push_back({ s.get(), m.hist.back().id }); } break;
        default: s.retireExpired(Clock::now() + std::chrono::hours(r.below(3) * 1000)); break;
        }
        // observe
        VP_CHECK(s.nHistory() == m.hist.size(), "n-history", log + ": " + str(s.nHistory()) + " instead of " + str(m.hist.size()));
        for (std::int64_t k = 0; k < static_cast<std::int64_t>(m.hist.size()); ++k) {
            if (k > 2 && !r.chance(20)) continue;
            const auto &e = m.hist[m.hist.size() - 1 - static_cast<std::size_t>(k)];
            auto        n = s.get(-k);
            VP_CHECK(n.value && n.value->ok() && n.value->id == e.id, "get-index", log + " index -" + str(static_cast<std::uint64_t>(k)) + ": " + str(n.value->id) + " instead of " + str(e.id));
            VP_CHECK(n.validSince == e.since, "valid-since", log);
        }
        auto throws = [&](auto &&f) { try { f(); return false; } catch (const std::out_of_range &) { return true; } };
        VP_CHECK(throws([&] { (void) s.get(-static_cast<std::int64_t>(m.hist.size())); }), "before-history", log);
        VP_CHECK(throws([&] { (void) s.get(1); }), "future-index", log);
        { // by time
            TS t = r.chance(60) ? r.pick(m.hist).since : base + std::chrono::milliseconds(r.range(-6000, 6000));
            if (r.chance(30)) t += std::chrono::nanoseconds(r.range(-1, 1));
            const typename Model<N>::E *want = nullptr;
            for (auto it = m.hist.rbegin(); it != m.hist.rend(); ++it) if (it->since <= t) { want = &*it; break; }
            std::optional<std::uint64_t> got;
            try { auto n = s.get(t); got = n.value->id; VP_CHECK(n.value->ok(), "get-time-torn", log); } catch (const std::out_of_range &) {}
            VP_CHECK(got.has_value() == (want != nullptr) && (!want || *got == want->id), "get-time", log + (got ? ": " + str(*got) : ": none") + " instead of " + (want ? str(want->id) : std::string("none")));
        }
        std::vector<std::string> want;
        for (auto &p : m.pending) want.push_back(p.first);
        VP_CHECK(s.getPendingTransactions() == want, "pending", log);
        for (auto &h : held) VP_CHECK(h.node.value->ok() && h.node.value->id == h.id, "held-value", log);
        ctx().eval();
    }
    ctx().distinct(log);
    ctx().sample(log);
}

static void commitFunction() { // values combined by the user's function, failing ones included
    auto &r = ctx().rng;
    SettingBase<int, std::vector<int>, std::string, 16> s([](const std::vector<int> &old, int &&in) { if (in < 0) throw std::domain_error("negative"); auto n = old; n.push_back(in); return n; });
    std::vector<int> want;
    std::string log;
    std::size_t published = 1;
    for (int i = 0; i < 30; ++i) {
        int v = static_cast<int>(r.range(-2, 9));
        log += str(static_cast<std::uint64_t>(v + 2));
        ctx().crumb("commit-function", log);
        bool done = false;
        const int w = v;
        if (r.chance(50)) { try { done = s.commit(std::move(v)); } catch (const std::domain_error &) {} }
        else { s.stage(std::move(v), "tok"); log += "t"; try { done = s.commit("tok"); } catch (const std::domain_error &) {} }
        VP_CHECK(done == (w >= 0), "failed-commit-claimed", log);
        if (w >= 0) { want.push_back(w); ++published; }
        VP_CHECK(*s.get().value == want, "commit-function-value", log);
        VP_CHECK(s.nHistory() == std::min<std::size_t>(published, 9), "commit-function-history", log);
        VP_CHECK(s.getPendingTransactions().empty(), "commit-function-pending", log);
        ctx().eval();
    }
    ctx().distinct(log);
}

static void expiry() { // time-outs of 1000 s in virtual time: entries are committed "in the past" and looked at "in the future"
    auto &r = ctx().rng;
    SettingBase<Val, Val, std::string, 32, std::chrono::seconds, 1000, 500> s;
    std::string log;
    struct E { std::uint64_t id; bool fresh; };
    std::deque<E>         hist{ { 0, true } };
    std::set<std::string> pending;
    std::uint64_t         next = 1;
    for (int i = 0; i < 40; ++i) {
        const auto op = r.below(6);
        log += static_cast<char>('a' + op);
        ctx().crumb("expiry", log);
        switch (op) {
        case 0: case 1: { // the clean-up after the commit may remove old ones, never used ones
            const bool old = r.chance(60);
            s.commit(Val(next), Clock::now() - (old ? 5000s : 0s));
            hist.push_back({ next++, !old });
            break; }
        case 2: { const auto k = static_cast<std::int64_t>(r.below(s.nHistory())); const auto id = s.get(-k).value->id; for (auto &e : hist) if (e.id == id) e.fresh = true; break; }
        case 3: { auto t = "t" + str(r.below(4)); s.stage(Val(next++), t, Clock::now() - (r.chance(50) ? 5000s : 0s)); pending.insert(t); break; }
        case 4: s.retireExpired(Clock::now() + 100s); break;
        default:
            if (r.chance(30)) {
                s.retireExpired(Clock::now() + 700s);
                pending.clear();
                VP_CHECK(s.getPendingTransactions().empty(), "transaction-not-expired", log);
            } else if (r.chance(40)) {
                s.retireExpired(Clock::now() + 3000s);
                pending.clear();
                VP_CHECK(s.nHistory() == 1, "history-not-expired", log + ": " + str(s.nHistory()));
                VP_CHECK(s.getPendingTransactions().empty(), "transaction-not-expired", log);
                while (hist.size() > 1) hist.pop_front();
            }
        }
        std::size_t firstFresh = hist.size() - 1; // the newest one stays in any case
        for (std::size_t k = 0; k < hist.size(); ++k) if (hist[k].fresh) { firstFresh = k; break; }
        const std::size_t minKept = std::min<std::size_t>(hist.size() - firstFresh, 25);
        VP_CHECK(s.nHistory() >= minKept && s.nHistory() <= hist.size(), "used-setting-expired", log + ": " + str(s.nHistory()) + " kept, at least " + str(minKept) + " were used lately");
        while (hist.size() > s.nHistory()) hist.pop_front();
        // contents (without asking for too many of them: reading is using)
        const auto n = s.get();
        VP_CHECK(n.value->ok() && n.value->id == hist.back().id, "latest-after-expiry", log);
        hist.back().fresh = true;
        auto pend = s.getPendingTransactions();
        VP_CHECK(std::set<std::string>(pend.begin(), pend.end()) == pending, "pending-after-expiry", log);
        ctx().eval();
    }
    ctx().distinct(vp::fnv(log, 77));
}

static void t03() {
    for (std::uint64_t i = 0; i < 500 * ctx().scale; ++i) {
        history<16>(60);
        if (i % 4 == 0) history<64>(160);
        commitFunction();
        expiry();
    }
}

// ---------------------------------------------------------------- T04
static void jitter(vp::Rng &r) {
    const auto k = r.below(20);
    if (k < 4) std::this_thread::yield();
    else if (k == 4) std::this_thread::sleep_for(std::chrono::microseconds(r.below(150)));
    else for (std::uint64_t i = 0, n = r.below(200); i < n; ++i) asm volatile("");
}

constexpr int SRC = 8;
struct Acc {
    std::uint64_t                  count = 0;
    std::array<std::uint64_t, SRC> last{};
    std::uint64_t                  chk = SALT;
    std::unique_ptr<std::uint64_t> heap = std::make_unique<std::uint64_t>(0);
    Acc() = default;
    Acc(Acc &&) = default;
    Acc &operator=(Acc &&) = default;
    std::uint64_t sum() const { std::uint64_t h = SALT; for (auto v : last) h = vp::mix(h, v); return h; }
    bool          ok() const { return heap && *heap == count && (count == 0 || chk == vp::mix(count, sum())); }
    Acc next(int src, std::uint64_t n) const {
        Acc a;
        a.count = count + 1;
        a.last  = last;
        a.last[static_cast<std::size_t>(src)] = n;
        a.chk   = vp::mix(a.count, a.sum());
        a.heap  = std::make_unique<std::uint64_t>(a.count);
        return a;
    }
};
struct In { int src = 0; std::uint64_t n = 0; };

static void accumulate() {
    auto &r0 = ctx().rng;
    SettingBase<In, Acc, std::string, 64, std::chrono::seconds, -1, 3600> s([](const Acc &old, In &&in) { return old.next(in.src, in.n); });
    const int  nCommit = static_cast<int>(r0.range(1, 2)), nModify = static_cast<int>(r0.range(0, 2)), nStage = static_cast<int>(r0.range(0, 2)), nRead = static_cast<int>(r0.range(1, 2));
    const int  iters = LIGHT ? 60 : 250;
    std::atomic<std::uint64_t> done{ 0 };
    std::atomic<int>           live{ nCommit + nModify + nStage };
    std::array<std::atomic<std::uint64_t>, SRC> expect{};
    std::vector<std::thread>   th;
    ctx().crumb("concurrent", str(static_cast<std::uint64_t>(nCommit)) + "/" + str(static_cast<std::uint64_t>(nModify)) + "/" + str(static_cast<std::uint64_t>(nStage)));
    std::atomic<std::uint64_t> distinctSeen{ 0 };
    for (int t = 0; t < nCommit + nModify + nStage; ++t) th.emplace_back([&, t, seed = r0.next()] {
        vp::Rng r(seed);
        for (int i = 1; i <= iters; ++i) {
            const auto n = static_cast<std::uint64_t>(i);
            bool ok = false;
            if (t < nCommit) ok = s.commit(In{ t, n });
            else if (t < nCommit + nModify) ok = s.modifySetting([&](const Acc &old) { if (!old.ok()) ctx().violation("torn:modify", "the modification was offered a torn value"); if (r.chance(20)) std::this_thread::yield(); return old.next(t, n); });
            else {
                const auto token = "tok" + str(static_cast<std::uint64_t>(t));
                s.stage(In{ t, n }, token);
                if (r.chance(20)) jitter(r);
                if (r.chance(15)) {
                    if (!s.retireStaged(token)) ctx().violation("staged-lost", "a staged transaction was gone before its owner retired it");
                } else {
                    ok = s.commit(token);
                    if (!ok) ctx().violation("staged-lost", "a staged transaction could not be committed by its owner");
                }
                auto p = s.getPendingTransactions();
                if (std::ranges::find(p, token) != p.end()) ctx().violation("staged-stays", "a finished transaction is still pending");
            }
            if (ok) { done.fetch_add(1, std::memory_order_release); expect[static_cast<std::size_t>(t)].store(n, std::memory_order_relaxed); }
            else if (t < nCommit + nModify) ctx().count("commit_refused_for_capacity");
            ctx().eval();
            if (r.chance(30)) jitter(r);
        }
        live.fetch_sub(1);
    });
    for (int t = 0; t < nRead; ++t) th.emplace_back([&, seed = r0.next()] {
        vp::Rng r(seed);
        std::uint64_t last = 0;
        std::array<std::uint64_t, SRC> lastN{};
        while (live.load() > 0) {
            const auto before = done.load(std::memory_order_acquire);
            auto       n = s.get();
            if (!n.value->ok()) ctx().violation("torn:read", "torn value read");
            if (n.value->count < before) ctx().violation("stale", str(n.value->count) + " although " + str(before) + " commits had been reported");
            if (n.value->count < last) ctx().violation("went-back", str(n.value->count) + " after " + str(last));
            for (int k = 0; k < SRC; ++k) { if (n.value->last[static_cast<std::size_t>(k)] < lastN[static_cast<std::size_t>(k)]) ctx().violation("source-went-back", "an earlier value of a source reappeared"); }
            if (n.value->count != last) distinctSeen.fetch_add(1, std::memory_order_relaxed);
            last = n.value->count;
            lastN = n.value->last;
            if (r.chance(30)) {
                try { auto o = s.get(-static_cast<std::int64_t>(r.below(4))); if (!o.value->ok()) ctx().violation("torn:history", "torn value in the history"); } catch (const std::out_of_range &) {}
                try { auto o = s.get(n.validSince); if (!o.value->ok()) ctx().violation("torn:by-time", "torn value by time"); } catch (const std::out_of_range &) {}
                const auto h = s.nHistory();
                if (h < 1 || h > 64) ctx().violation("n-history", str(h));
            }
            if (!n.value->ok() || n.value->count != last) ctx().violation("unstable", "a value changed while it was held");
            ctx().eval();
            std::this_thread::sleep_for(std::chrono::microseconds(20 + r.below(100)));
        }
    });
    for (auto &x : th) x.join();
    auto n = s.get();
    VP_CHECK(n.value->ok() && n.value->count == done.load(), "lost-or-doubled", str(n.value->count) + " after " + str(done.load()) + " successful commits");
    for (std::size_t k = 0; k < SRC; ++k) VP_CHECK(n.value->last[k] == expect[k].load(), "last-of-source", "source " + str(k) + ": " + str(n.value->last[k]) + " instead of " + str(expect[k].load()));
    VP_CHECK(s.getPendingTransactions().empty(), "pending-left", "transactions left");
    const auto want = std::min<std::uint64_t>(done.load() + 1, 57);
    VP_CHECK(s.nHistory() >= want && s.nHistory() <= 64, "history-length", str(s.nHistory()) + " of " + str(done.load() + 1));
    // the history is the sequence of commits, without gap
    for (std::uint64_t k = 0; k < want; ++k) { auto h = s.get(-static_cast<std::int64_t>(k)); VP_CHECK(h.value->ok() && h.value->count == done.load() - k, "history-gap", "entry -" + str(k) + " is commit " + str(h.value->count) + " of " + str(done.load())); }
    ctx().count("distinct_values_seen_by_readers", distinctSeen.load());
    ctx().distinct(vp::mix(distinctSeen.load(), r0.next()));
}

static void contexts() { // commits to different contexts by different threads do not undo each other
    auto &r0 = ctx().rng;
    CtxSetting<Val, std::string, 64, std::chrono::seconds, 3600, 3600> s;
    const int nW = static_cast<int>(r0.range(2, 4)), iters = LIGHT ? 40 : 150;
    std::atomic<int> live{ nW };
    std::array<std::atomic<std::uint64_t>, 4> committed{};
    std::vector<std::thread> th;
    ctx().crumb("contexts", str(static_cast<std::uint64_t>(nW)));
    for (int t = 0; t < nW; ++t) th.emplace_back([&, t, seed = r0.next()] {
        vp::Rng r(seed);
        const TimingCtx c(t + 1, 1);
        for (int i = 1; i <= iters; ++i) {
            const auto n = static_cast<std::uint64_t>(i);
            bool ok;
            if (r.chance(70)) ok = s.commit(c, Val(n)); else { s.stage(c, Val(n), "tok" + str(static_cast<std::uint64_t>(t))); ok = s.commit("tok" + str(static_cast<std::uint64_t>(t))); }
            if (ok) committed[static_cast<std::size_t>(t)].store(n, std::memory_order_release);
            auto g = s.get(c);
            if (!g.settingValue.value->ok() || (ok && g.settingValue.value->id != n)) ctx().violation("own-context", "context " + str(static_cast<std::uint64_t>(t)) + ": " + str(g.settingValue.value->id) + " right after committing " + str(n));
            if (r.chance(20)) jitter(r);
            ctx().eval();
        }
        live.fetch_sub(1);
    });
    th.emplace_back([&, seed = r0.next()] {
        vp::Rng r(seed);
        std::array<std::uint64_t, 4> last{};
        while (live.load() > 0) {
            const auto t = r.below(static_cast<std::uint64_t>(nW));
            const auto before = committed[t].load(std::memory_order_acquire);
            auto g = s.get(TimingCtx(static_cast<int>(t) + 1, 1, 5, r.chance(50) ? 7 : -1));
            auto &v = *g.settingValue.value;
            if (!v.ok()) ctx().violation("torn:context", "torn value");
            else if (v.id < before || v.id < last[t]) ctx().violation("context-stale", str(v.id) + " although " + str(std::max(before, last[t])) + " was there");
            last[t] = v.id;
            if (r.chance(30)) s.retireExpired();
            ctx().eval();
            std::this_thread::sleep_for(std::chrono::microseconds(20 + r.below(100)));
        }
    });
    for (auto &x : th) x.join();
    for (int t = 0; t < nW; ++t) { auto g = s.get(TimingCtx(t + 1, 1)); VP_CHECK(g.settingValue.value->id == committed[static_cast<std::size_t>(t)].load(), "context-lost", "context " + str(static_cast<std::uint64_t>(t)) + ": " + str(g.settingValue.value->id)); }
    VP_CHECK(s.nCtxHistory() == static_cast<std::size_t>(nW), "context-count", str(s.nCtxHistory()));
    ctx().distinct(vp::mix(3, r0.next()));
}

static void t04() {
    for (std::uint64_t i = 0; i < (LIGHT ? 200 : 400) * ctx().scale; ++i) { accumulate(); contexts(); }
}

// ---------------------------------------------------------------- T05
using Key = std::array<int, 4>;
static TimingCtx mk(const Key &k) { return TimingCtx(k[0], k[1], k[2], k[3]); }
static std::string show(const Key &k) { std::string o; for (int v : k) o += (v < 0 ? std::string("*") : std::to_string(v)) + "."; return o; }

static void ctxHistory(bool withTimeout) {
    auto &r = ctx().rng;
    CtxSetting<Val, std::string, 16> plain;
    CtxSetting<Val, std::string, 16, std::chrono::seconds, 1000, 1000> timed;
    auto with = [&](auto &&f) { return withTimeout ? f(timed) : f(plain); };
    using M = std::map<Key, std::uint64_t>;
    struct E { M map; TS at; };
    std::deque<E> hist{ { {}, TS::min() } };
    std::vector<std::tuple<std::string, Key, std::uint64_t>> pending;
    std::string   log;
    std::uint64_t next = 1;
    auto key = [&](bool full) { Key k{ -1, -1, -1, -1 }; const auto depth = full ? 4 : r.below(5); for (std::size_t i = 0; i < depth; ++i) k[i] = static_cast<int>(r.range(0, 2)); return k; };
    auto publish = [&](M m, TS at) { hist.push_back({ std::move(m), at }); while (hist.size() > 9) hist.pop_front(); };
    auto put = [&](const Key &k, std::uint64_t v, TS at) { auto m = hist.back().map; m[k] = v; publish(m, at); };
    std::vector<std::pair<settings::CtxResult<Val>, std::uint64_t>> held;
    held.reserve(200);
    for (int i = 0; i < 50; ++i) {
        const auto op = r.below(9);
        log += static_cast<char>('a' + op);
        const TS at = Clock::now();
        switch (op) {
        case 0: case 1: case 2: { auto k = key(false); log += show(k); ctx().crumb("ctx-commit", log); VP_CHECK(with([&](auto &s) { return s.commit(mk(k), Val(next), at).isCommitted; }), "ctx-commit", log); put(k, next++, at); break; }
        case 3: { auto k = key(false); auto t = "t" + str(r.below(3)); with([&](auto &s) { return s.stage(mk(k), Val(next), t, at).isCommitted; });
            auto it = std::ranges::find_if(pending, [&](auto &p) { return std::get<0>(p) == t; });
            if (it != pending.end()) *it = { t, k, next }; else pending.emplace_back(t, k, next);
            ++next; break; }
        case 4: { auto t = "t" + str(r.below(3)); log += t; ctx().crumb("ctx-commit-token", log);
            auto it = std::ranges::find_if(pending, [&](auto &p) { return std::get<0>(p) == t; });
            VP_CHECK(with([&](auto &s) { return s.commit(t, at).isCommitted; }) == (it != pending.end()), "ctx-commit-token", log);
            if (it != pending.end()) { put(std::get<1>(*it), std::get<2>(*it), at); pending.erase(it); }
            break; }
        case 5: { auto k = key(false); log += show(k); ctx().crumb("ctx-retire-exact", log);
            auto m = hist.back().map; const auto n = m.erase(k);
            VP_CHECK(with([&](auto &s) { return s.template retire<true>(mk(k), at); }) == (n > 0), "ctx-retire-exact", log);
            publish(m, at); break; }
        case 6: { auto k = key(false); log += show(k); ctx().crumb("ctx-retire", log);
            auto m = hist.back().map;
            const auto n = std::erase_if(m, [&](auto &p) { for (std::size_t j = 0; j < 4; ++j) if (k[j] >= 0 && p.first[j] != k[j]) return false; return true; });
            VP_CHECK(with([&](auto &s) { return s.template retire<false>(mk(k), at); }) == (n > 0), "ctx-retire", log);
            publish(m, at); break; }
        case 7: { ctx().crumb("ctx-expire", log);
            if (withTimeout) timed.retireExpired(Clock::now() + 100s); else plain.retireExpired(Clock::now() + (r.chance(50) ? 0s : 100000s)); // nothing is that old / nothing ever expires
            break; }
        default: if (withTimeout && r.chance(30)) { ctx().crumb("ctx-expire-all", log); timed.retireExpired(Clock::now() + 3000s); M e; hist.back().map = e; while (hist.size() > 1) hist.pop_front(); pending.clear(); log += "!"; }
        }
        VP_CHECK(with([&](auto &s) { return s.nHistory(); }) == hist.size(), "ctx-n-history", log + ": " + str(with([&](auto &s) { return s.nHistory(); })));
        VP_CHECK(with([&](auto &s) { return s.nCtxHistory(); }) == hist.back().map.size(), "ctx-n-contexts", log);
        VP_CHECK(with([&](auto &s) { return s.getPendingTransactions().size(); }) == pending.size(), "ctx-pending", log);
        for (int q = 0; q < 6; ++q) {
            const auto back = r.chance(60) ? 0 : r.below(hist.size());
            const auto &e = hist[hist.size() - 1 - back];
            Key k = key(true);
            if (r.chance(40) && !e.map.empty()) { auto it = e.map.begin(); std::advance(it, static_cast<long>(r.below(e.map.size()))); k = it->first; }
            Key want = k;
            std::optional<std::uint64_t> val;
            for (int drop = 4; drop >= 0; --drop) { // exact, then without gid, pid, sid, cid
                if (drop < 4) want[static_cast<std::size_t>(drop)] = -1;
                if (auto it = e.map.find(want); it != e.map.end()) { val = it->second; break; }
            }
            if (!val) want = { -1, -1, -1, -1 };
            ctx().crumb("ctx-get", log + " " + show(k));
            const bool byTime = r.chance(25) && back == 0 && e.at > TS::min();
            const auto res = with([&](auto &s) { return byTime ? s.get(mk(k), Clock::now()) : s.get(mk(k), -static_cast<std::int64_t>(back)); });
            VP_CHECK(res.settingValue.value && res.settingValue.value->ok(), "ctx-torn", log + " " + show(k));
            VP_CHECK(res.settingValue.value->id == val.value_or(0), "ctx-value", log + " get " + show(k) + ": " + str(res.settingValue.value->id) + " instead of " + str(val.value_or(0)));
            VP_CHECK(res.timingCtx == mk(want), "ctx-context", log + " get " + show(k) + ": " + res.timingCtx.toString() + " instead of " + show(want));
            if (r.chance(10)) { held.emplace_back(res, val.value_or(0)); }
            ctx().eval();
        }
        for (auto &[h, id] : held) VP_CHECK(h.settingValue.value->ok() && h.settingValue.value->id == id, "ctx-held", log);
    }
    ctx().distinct(log);
    ctx().sample(log);
}

static void t05() {
    for (std::uint64_t i = 0; i < 400 * ctx().scale; ++i) ctxHistory(i % 3 == 0);
}

void vp_main(vp::Ctx &c) {
    if (c.mode == "t03") t03();
    if (c.mode == "t04") t04();
    if (c.mode == "t05") t05();
}
