// V01: the registry of signals, V02: its client
#include <cassert>
#include <condition_variable>
#include <cstdlib>
#include <deque>
#include <dlfcn.h>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <list>
#include <mutex>
#include <print>
#include <thread>
#include "vp.hpp"
#include <ClientContext.hpp>
#include <majordomo/Worker.hpp>
#define OPENCMW_CPP_RESTCLIENT_HPP // needs libraries that are not installed; not used here
namespace opencmw::client {
struct RestClient {
    template<typename... A> explicit RestClient(A &&...) {}
    mdp::Message blockingRequest(Command) { return {}; }
};
}
#include <services/dns.hpp>
#include <services/dns_client.hpp>

using vp::ctx;
using namespace opencmw;
using namespace opencmw::service::dns;
namespace fs = std::filesystem;

struct Scratch { // the registry keeps its file in the working directory
    fs::path was = fs::current_path(), dir;
    Scratch() { std::string t = (fs::temp_directory_path() / "vpdnsXXXXXX").string(); dir = mkdtemp(t.data()); fs::current_path(dir); }
    ~Scratch() { fs::current_path(was); fs::remove_all(dir); }
};
struct Registry : DnsHandler {
    DataStorage &store() { return datastorage; }
    std::vector<Entry> request(mdp::Command c, const Context &x, const FlatEntryList &in) {
        mdp::Message msg;
        msg.command = c;
        majordomo::RequestContext raw{ .request = std::move(msg) };
        Context       reply;
        FlatEntryList out;
        (*this)(raw, x, in, reply, out);
        return out.toEntries();
    }
};

// ---- the registry as a user understands it
static bool sameRate(float a, float b) { return (std::isnan(a) && std::isnan(b)) || a == b; }
static bool same(const Entry &a, const Entry &b) {
    return a.protocol == b.protocol && a.hostname == b.hostname && a.port == b.port && a.service_name == b.service_name && a.service_type == b.service_type && a.signal_name == b.signal_name && a.signal_unit == b.signal_unit && sameRate(a.signal_rate, b.signal_rate) && a.signal_type == b.signal_type;
}
static bool matches(const Entry &f, const Entry &e) {
    auto s = [](const std::string &x, const std::string &y) { return x.empty() || x == y; };
    return s(f.protocol, e.protocol) && s(f.hostname, e.hostname) && (f.port == -1 || f.port == e.port) && s(f.service_name, e.service_name) && s(f.service_type, e.service_type) && s(f.signal_name, e.signal_name) && s(f.signal_unit, e.signal_unit) && (std::isnan(f.signal_rate) || f.signal_rate == e.signal_rate) && s(f.signal_type, e.signal_type);
}
struct Model {
    std::vector<Entry> live, expired;
    void add(const Entry &e) {
        if (std::erase_if(live, [&](auto &x) { return same(x, e); })) expired.push_back(e); // the renewed one may linger
        live.push_back(e);
    }
    std::vector<Entry> find(const Entry &f) const { std::vector<Entry> r; for (auto &e : live) if (matches(f, e)) r.push_back(e); return r; }
    std::vector<Entry> remove(const Entry &f) { auto r = find(f); std::erase_if(live, [&](auto &x) { return matches(f, x); }); return r; }
};
static std::string show(const Entry &e) { return "[" + e.protocol + "|" + e.hostname + "|" + std::to_string(e.port) + "|" + e.service_name + "|" + e.service_type + "|" + e.signal_name + "|" + e.signal_unit + "|" + std::to_string(e.signal_rate) + "|" + e.signal_type + "]"; }
static std::string show(const std::vector<Entry> &v) { std::string s = std::to_string(v.size()); for (std::size_t i = 0; i < v.size() && i < 6; i++) s += " " + show(v[i]); return s; }
static bool sameSet(std::vector<Entry> a, const std::vector<Entry> &b, const std::vector<Entry> *mayToo = nullptr) {
    for (auto &e : b) {
        auto it = std::find_if(a.begin(), a.end(), [&](auto &x) { return same(x, e); });
        if (it == a.end()) return false;
        a.erase(it);
    }
    return std::all_of(a.begin(), a.end(), [&](auto &x) { return mayToo && std::any_of(mayToo->begin(), mayToo->end(), [&](auto &y) { return same(x, y); }); });
}
static std::string word(vp::Rng &r, const char *stem, int n) { return std::string(stem) + std::to_string(r.below(std::uint64_t(n))); }
static Entry gen(vp::Rng &r, const std::string &service = "") {
    Entry e{ word(r, "prot", 2), word(r, "host", 3), int(r.below(3)) * 1000, service.empty() ? word(r, "serv", 3) : service, word(r, "ty", 2), word(r, "sig", 4), word(r, "unit", 2), r.chance(30) ? std::numeric_limits<float>::quiet_NaN() : float(r.below(4)) * 0.5f, word(r, "st", 2) };
    if (r.chance(10)) e.signal_name = r.chance(50) ? "" : r.str("abc XYZ/.&=#?%+", 1, 20);
    if (r.chance(10)) e.signal_type.clear(), e.port = -1;
    return e;
}
static QueryEntry filter(vp::Rng &r, const Entry &e) { // some of the parts of an entry
    QueryEntry f;
    auto       some = [&](auto &to, const auto &from) { if (r.chance(25)) to = from; };
    some(f.protocol, e.protocol), some(f.hostname, e.hostname), some(f.port, e.port), some(f.service_name, e.service_name), some(f.service_type, e.service_type), some(f.signal_name, e.signal_name), some(f.signal_unit, e.signal_unit), some(f.signal_rate, e.signal_rate), some(f.signal_type, e.signal_type);
    return f;
}
static Context asContext(const QueryEntry &f) { Context c; static_cast<QueryEntry &>(c) = f; return c; }

static const char *FILENAME = "./dns_data_storage.yas";
static void history(vp::Rng &r) {
    fs::remove(FILENAME);
    auto        reg = std::make_unique<Registry>();
    Model       m;
    std::string story;
    auto        anyEntry = [&] { return !m.live.empty() && r.chance(70) ? m.live[r.below(m.live.size())] : gen(r); };
    for (int step = int(r.range(3, 40)); step > 0 && !ctx().anyViolation(); step--) {
        switch (r.below(10)) {
        case 0: case 1: case 2: { // register, new ones and again
            std::vector<Entry> es;
            for (int n = int(r.range(0, 5)); n > 0; n--) es.push_back(r.chance(30) ? anyEntry() : gen(r));
            story += " add " + std::to_string(es.size());
            auto back = reg->request(mdp::Command::Set, {}, FlatEntryList(es));
            VP_CHECK(back.size() == es.size() && std::equal(back.begin(), back.end(), es.begin(), same), "registration-reply", show(back) + " instead of " + show(es));
            for (auto &e : es) m.add(e);
            ctx().count("registered", es.size());
            break;
        }
        case 3: case 4: case 5: {
            const auto f = filter(r, anyEntry());
            ctx().crumb("query", show(f) + story);
            auto got = reg->request(mdp::Command::Get, asContext(f), {});
            VP_CHECK(sameSet(got, m.find(f)), "wrong-query-result", show(f) + " gave " + show(got) + " instead of " + show(m.find(f)) + " after" + story);
            ctx().count("queries");
            break;
        }
        case 6: {
            std::vector<Entry> fsel, want;
            for (int n = int(r.range(1, 3)); n > 0; n--) fsel.push_back(r.chance(50) ? anyEntry() : static_cast<Entry>(filter(r, anyEntry())));
            for (auto &f : fsel) for (auto &e : m.remove(f)) want.push_back(e);
            Context c;
            c.doDelete = true;
            auto got = reg->request(mdp::Command::Set, c, FlatEntryList(fsel));
            VP_CHECK(sameSet(got, want, &m.expired), "wrong-deletion", show(fsel) + " deleted " + show(got) + " instead of " + show(want));
            story += " delete " + std::to_string(want.size());
            ctx().count("deleted", want.size());
            break;
        }
        case 7: { // not renewed in time
            auto &es = reg->store()._entries;
            if (es.empty()) break;
            auto &e = es[r.below(es.size())];
            if (e.ttl < std::chrono::system_clock::now()) break;
            Entry x = e;
            e.ttl   = std::chrono::system_clock::now() - std::chrono::seconds(r.range(1, 5000));
            std::erase_if(m.live, [&](auto &y) { return same(x, y); });
            m.expired.push_back(x);
            story += " expire";
            ctx().count("expired");
            break;
        }
        case 8: { // stop and start
            reg.reset();
            reg = std::make_unique<Registry>();
            story += " restart";
            ctx().count("restarts");
            break;
        }
        default: { // hostile
            std::vector<Entry> es;
            for (int n = int(r.range(0, 4)); n > 0; n--) es.push_back(gen(r));
            FlatEntryList l(es);
            switch (r.below(5)) {
            case 0: l.protocol.push_back("x"); break;
            case 1: l.port.push_back(1); break;
            case 2: l.hostname.resize(es.size() + 3); break;
            case 3: l.protocol.resize(es.size() + 200); break;
            default: l.signal_type.push_back("y"), l.signal_rate.push_back(1.f); break;
            }
            Context c;
            c.doDelete = r.chance(40);
            ctx().crumb("lists of different lengths", story);
            bool thrown = false;
            try { reg->request(mdp::Command::Set, c, l); } catch (const std::exception &) { thrown = true; }
            VP_CHECK(thrown, "lists-of-different-lengths-accepted", "");
            ctx().count("hostile requests");
        }
        }
        VP_CHECK(sameSet(reg->request(mdp::Command::Get, {}, {}), m.live), "registry-differs", "after" + story + ": " + show(reg->request(mdp::Command::Get, {}, {})) + " instead of " + show(m.live));
        VP_CHECK(reg->store().getActiveEntriesCount() == long(m.live.size()), "wrong-count", story);
    }
    ctx().distinct(story);
    reg.reset();
    // damaged files
    if (!fs::exists(FILENAME)) return;
    for (int n = int(r.below(4)); n > 0; n--) {
        std::ifstream in(FILENAME, std::ios::binary);
        std::string   d((std::istreambuf_iterator<char>(in)), {});
        in.close();
        if (d.empty()) break;
        if (r.chance(50)) d.resize(r.below(d.size()));
        for (int k = int(r.below(4)); k > 0 && !d.empty(); k--) d[r.below(d.size())] = char(r.next());
        std::ofstream(FILENAME, std::ios::binary | std::ios::trunc) << d;
        ctx().crumb("damaged file", vp::esc(d, 2000));
        try { Registry x; } catch (...) { ctx().count("damaged files refused"); }
        ctx().count("damaged files");
    }
}
static void v01(vp::Ctx &c) {
    Scratch scratch;
    for (std::uint64_t i = 0; i < vp::scaled(1600 / c.shards) && !c.anyViolation(); i++) {
        vp::Rng r(c.seed * 3001 + i * 7 + std::uint64_t(c.shard) * 100003);
        history(r);
    }
}

// ---------------------------------------------------------------------------------------------- V02
static thread_local int t_dawdle = 0; // delay between looking and waiting
#ifndef VP_TSAN
extern "C" int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const timespec *t) {
    static auto real = reinterpret_cast<int (*)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const timespec *)>(dlsym(RTLD_NEXT, "pthread_cond_clockwait"));
    if (t_dawdle) ::usleep(useconds_t(t_dawdle));
    return real(c, m, k, t);
}
void std::condition_variable::wait(std::unique_lock<std::mutex> &l) {
    if (t_dawdle) ::usleep(useconds_t(t_dawdle));
    pthread_cond_wait(native_handle(), l.mutex()->native_handle());
}
#endif

struct FakeServer : client::ClientBase {
    Registry                registry;
    vp::Rng                 r;
    std::deque<client::Command> q;
    std::mutex              m;
    std::condition_variable cv;
    bool                    over = false;
    std::thread             t;
    std::atomic<int>        bad{ 0 }; // what to do with requests of "bad" services
    explicit FakeServer(std::uint64_t seed) : r(seed), t([this] { loop(); }) {}
    ~FakeServer() override { stop(); }
    std::vector<std::string> protocols() override { return { "vp" }; }
    void                     stop() override { { std::scoped_lock l(m); over = true; } cv.notify_all(); if (t.joinable()) t.join(); }
    void                     request(client::Command c) override { { std::scoped_lock l(m); q.push_back(std::move(c)); } cv.notify_all(); }
    void                     loop() {
        for (;;) {
            client::Command c;
            {
                std::unique_lock l(m);
                while (!over && q.empty()) cv.wait(l);
                if (over) return;
                c = std::move(q.front()), q.pop_front();
            }
            if (r.chance(40)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(3000)));
            mdp::Message reply;
            reply.command = mdp::Command::Final, reply.topic = c.topic;
            try {
                const auto host = c.topic.hostName().value_or("");
                if (host == "silent") continue;
                if (host == "bad") {
                    if (bad++ % 3 == 0) reply.error = "no";
                    else if (bad % 3 == 1) { auto b = r.bytes(1, 200); reply.data = IoBuffer(b.data(), b.size()); }
                    else { FlatEntryList l; l.protocol = { "a", "b" }; opencmw::serialise<YaS>(reply.data, l); }
                } else {
                    const auto context = query::deserialise<Context>(c.topic.queryParamMap());
                    FlatEntryList in;
                    if (c.data.size()) { IoBuffer b{ c.data }; deserialise<YaS, ProtocolCheck::ALWAYS>(b, in); }
                    mdp::Message msg;
                    msg.command = c.command;
                    majordomo::RequestContext raw{ .request = std::move(msg) };
                    Context       rc;
                    FlatEntryList out;
                    registry(raw, context, in, rc, out);
                    opencmw::serialise<YaS>(reply.data, out);
                }
            } catch (const std::exception &e) { reply.data.clear(), reply.error = e.what(); }
            c.callback(reply);
        }
    }
};
static void v02(vp::Ctx &c) {
    Scratch    scratch;
    const bool light = std::getenv("VP_LIGHT");
    for (std::uint64_t i = 0; i < vp::scaled((light ? 12 : 24) / c.shards) && !c.anyViolation(); i++) {
        vp::Rng r(c.seed * 5003 + i * 11 + std::uint64_t(c.shard) * 100003);
        fs::remove(FILENAME);
        std::vector<std::unique_ptr<client::ClientBase>> impl;
        impl.push_back(std::make_unique<FakeServer>(r.next()));
        auto                     context = std::make_unique<client::ClientContext>(std::move(impl));
        std::vector<std::thread> ts;
        std::atomic<int>         running{ 0 };
        const int                threads = int(r.range(2, 8));
        std::atomic<long long>   progress{ 0 };
        for (int t = 0; t < threads; t++) {
            running++;
            ts.emplace_back([&, t, q = vp::Rng(r.next())]() mutable {
                const std::string mine = "thread" + std::to_string(t);
                DnsClient         client(*context, URI<STRICT>("vp://good/dns"));
                DnsClient         bad(*context, URI<STRICT>("vp://bad/dns"));
                Model             m;
                QueryEntry        all;
                all.service_name = mine;
                for (int n = 0; n < 20 && !ctx().anyViolation(); n++) {
                    t_dawdle = q.chance(40) ? int(q.below(45000)) : 0;
                    switch (q.below(5)) {
                    case 0: { auto e = gen(q, mine); auto back = client.registerSignal(e); VP_CHECK(same(back, e), "registration-reply", show(back) + " instead of " + show(e)); m.add(e); break; }
                    case 1: {
                        std::vector<Entry> es;
                        for (int k = int(q.range(1, 5)); k > 0; k--) es.push_back(gen(q, mine));
                        auto back = client.registerSignals(es);
                        VP_CHECK(back.size() == es.size() && std::equal(back.begin(), back.end(), es.begin(), same), "registration-reply", show(back) + " instead of " + show(es));
                        for (auto &e : es) m.add(e);
                        break;
                    }
                    case 2: { auto f = m.live.empty() ? all : filter(q, m.live[q.below(m.live.size())]); f.service_name = mine; auto got = client.querySignals(f); VP_CHECK(sameSet(got, m.find(f)), "wrong-query-result", show(f) + " gave " + show(got) + " instead of " + show(m.find(f))); break; }
                    case 3: { auto f = m.live.empty() ? all : filter(q, m.live[q.below(m.live.size())]); f.service_name = mine; auto want = m.remove(f); auto got = client.unregisterSignal(f); VP_CHECK(sameSet(got, want), "wrong-deletion", show(f) + " deleted " + show(got) + " instead of " + show(want)); break; }
                    default: { auto got = q.chance(50) ? bad.querySignals() : bad.registerSignals({ gen(q) }); VP_CHECK(got.empty(), "signals-out-of-thin-air", show(got)); }
                    }
                    progress++;
                    ctx().count("operations");
                }
                if (t == 0 && i % 3 == 0) {
                    DnsClient  silent(*context, URI<STRICT>("vp://silent/dns"));
                    const auto t0  = std::chrono::steady_clock::now();
                    auto       got = silent.querySignals({}, 1s);
                    VP_CHECK(got.empty() && std::chrono::steady_clock::now() - t0 > 900ms, "time-out", show(got));
                    ctx().count("time-outs");
                }
                auto got = client.querySignals(all);
                VP_CHECK(sameSet(got, m.live), "registry-differs", show(got) + " instead of " + show(m.live));
                running--;
            });
        }
        long long last = -1;
        for (int idle = 0; running > 0;) {
            std::this_thread::sleep_for(2ms);
            if (progress == last) { if (++idle > 20000) { ctx().violation("caller-not-woken", "a reply was delivered but its caller still waits, or a time-out is not kept"); ctx().finish(); ::_exit(0); } }
            else last = progress, idle = 0;
        }
        for (auto &t : ts) t.join();
        context.reset();
        c.distinct(vp::mix(r.next(), i));
    }
}

void vp_main(vp::Ctx &c) {
    if (c.mode == "v01") v01(c);
    if (c.mode == "v02") v02(c);
}
