// W01: requests, roles and replies of a worker; W02: notifications, subscriptions and the connection to the broker;
// W03: typed workers. The broker's side is played by raw sockets, frame by frame.
#include <deque>
#include "zpeer.hpp"
#include <majordomo/Worker.hpp>
#include <TimingCtx.hpp>

// the code under test sees real time plus an offset that the checker moves forward
static std::atomic<std::int64_t> g_offset{ 0 };
static std::int64_t realNow() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1'000'000'000LL + t.tv_nsec; }
std::chrono::steady_clock::time_point std::chrono::_V2::steady_clock::now() noexcept { return time_point(duration(realNow() + g_offset.load(std::memory_order_relaxed))); }

using vp::ctx;
using namespace opencmw;
using namespace std::chrono_literals;
using zp::M;
using zp::Peer;
using majordomo::Permission;
using majordomo::RequestContext;
using majordomo::Role;

struct TCtx { TimingCtx ctx; std::string s; std::int32_t i32 = 0; bool flag = false; MIME::MimeType contentType = MIME::UNKNOWN; };
struct TIn { std::string name; std::vector<double> v; std::int64_t n = 7; bool b = false; };
struct TOut { std::string text; std::vector<std::int32_t> v; double d = 0; bool ok = false; };
ENABLE_REFLECTION_FOR(TCtx, ctx, s, i32, flag, contentType)
ENABLE_REFLECTION_FOR(TIn, name, v, n, b)
ENABLE_REFLECTION_FOR(TOut, text, v, d, ok)

static std::string text(const IoBuffer &b) { return { reinterpret_cast<const char *>(b.data()), b.size() }; }
static M           fromLib(const mdp::Message &x) {
    M m;
    m.proto = x.protocolName, m.cmd = char(x.command), m.service = x.serviceName, m.reqId = text(x.clientRequestID), m.topic = x.topic.str(), m.data = text(x.data), m.error = x.error, m.rbac = text(x.rbac);
    return m;
}
static void setData(IoBuffer &b, const std::string &s) { b = IoBuffer(s.data(), s.size()); }
static const char *RBACNONE = "RBAC=NONE,";

// the broker's end of the sockets
struct Hub {
    zmq::Context context;
    Peer         router, sub;
    std::string  addr;
    std::string  id;                // routing id of the worker that announced itself last
    int          readies = 0, beats = 0;
    Hub() {
        static int n = 0;
        addr   = "inproc://vphub" + std::to_string(n++);
        router = Peer(context.zmq_ptr, ZMQ_ROUTER, (addr + "/router").c_str(), true);
        sub    = Peer(context.zmq_ptr, ZMQ_SUB, (addr + "/subscribe").c_str(), true);
    }
    void subscribe(const std::string &t) { zmq_setsockopt(sub.s, ZMQ_SUBSCRIBE, t.data(), t.size()); }
    void unsubscribe(const std::string &t) { zmq_setsockopt(sub.s, ZMQ_UNSUBSCRIBE, t.data(), t.size()); }
    void toWorker(M m) {
        m.src = id;
        router.send(m.frames(true));
    }
    // next message other than a heartbeat; waits at most 20 s
    std::optional<M> next(int ms = 20000) {
        const auto end = realNow() + ms * 1'000'000LL;
        for (;;) {
            if (auto f = router.recv()) {
                auto m = M::from(*f, true);
                VP_CHECK(m.has_value(), "malformed-message", "the worker sent a message that is not MDP, " + std::to_string(f->size()) + " frames");
                if (!m) continue;
                VP_CHECK(m->proto == zp::W03, "wrong-protocol", m->str());
                if (m->cmd == zp::Heartbeat) { beats++; continue; }
                return m;
            }
            zmq_pollitem_t p{ router.s, 0, ZMQ_POLLIN, 0 };
            if (realNow() >= end) return {};
            zmq_poll(&p, 1, 5);
        }
    }
    bool expectReady(std::string_view service, std::string_view description, const std::string &why) {
        auto m = next();
        VP_CHECK(m && m->cmd == zp::Ready, "no-ready", "the worker does not announce itself " + why + ": " + (m ? m->str() : "nothing received"));
        if (!m || m->cmd != zp::Ready) return false;
        VP_CHECK(m->service == service && m->data == description && m->rbac == RBACNONE && m->error.empty(), "wrong-ready", m->str());
        VP_CHECK(m->src != id, "same-connection", "a new announcement on the old connection " + why);
        id = m->src, readies++;
        return true;
    }
};

template<typename F>
static bool eventually(F &&f, int ms = 20000) {
    const auto end = realNow() + ms * 1'000'000LL;
    while (!f()) {
        if (realNow() > end) return false;
        std::this_thread::sleep_for(200us);
    }
    return true;
}
static majordomo::Settings settings(int beatMs, int liveness) {
    majordomo::Settings s;
    s.heartbeatInterval = std::chrono::milliseconds(beatMs), s.heartbeatLiveness = liveness, s.workerReconnectInterval = 3ms;
    return s;
}

// ---------------------------------------------------------------------------------------------- W01
struct Spec { // what a worker type promises, written down independently
    std::string                                      name, description;
    std::vector<std::pair<std::string, std::string>> roles; // name, "rw", "r", "w", ""
    std::string                                      other; // rights of everybody else
};
static std::string roleOf(const std::string &token) { // RBAC=<role>,<hash>
    if (token.substr(0, 5) != "RBAC=") return "";
    const auto comma = token.find(',', 5);
    return comma == std::string::npos ? "" : token.substr(5, comma - 5);
}
static std::string genToken(vp::Rng &r, const Spec &s) {
    std::string role = r.chance(75) ? r.pick(s.roles).first : std::string(r.pick(std::vector<const char *>{ "UNKNOWN", "", "admin", "ADMI", "ADMINX", "ANY", "NONE", "READER ", "\0x" }));
    std::string hash = r.chance(50) ? "" : r.chance(50) ? "4e1243bd22c66e76c2ba9eddc1f91394e57f9f83" : r.bytes(0, 12);
    switch (r.below(14)) {
    case 0: return "";
    case 1: return "RBAC=" + role;                                     // no comma: no role
    case 2: return " RBAC=" + role + "," + hash;
    case 3: return "rbac=" + role + "," + hash;
    case 4: return "RBAC=" + role + ",RBAC=ADMIN,";
    case 5: return r.bytes(0, 20);
    case 6: return "RBAC=,ADMIN,";
    default: return "RBAC=" + role + "," + hash;
    }
}
static std::string genTopic(vp::Rng &r, const std::string &service) {
    std::string t = r.chance(80) ? service : service + "/sub" + std::to_string(r.below(3));
    if (r.chance(60)) t += r.pick(std::vector<const char *>{ "?a=1", "?ctx=FAIR.SELECTOR.C%3D1", "?x=%20y&z", "?contentType=text%2Fhtml", "" });
    return t;
}
static std::string genData(vp::Rng &r) {
    switch (r.below(6)) {
    case 0: return "";
    case 1: return std::string(1, char(r.below(256)));
    case 2: return r.bytes(200, 4000);
    default: return r.bytes(0, 40);
    }
}
struct HandlerLog {
    std::mutex     m;
    std::deque<M>  calls;
    std::atomic<int> inside{ 0 };
};
static constexpr std::string_view ACTIONS = "EEEEETISPCNXQ"; // first byte of the payload: what the handler does

template<typename W>
static void requests(vp::Rng &r, const Spec &spec) {
    Hub         hub;
    HandlerLog  log;
    W          *self = nullptr;
    std::string echoed;
    W           worker(
            URI<STRICT>(hub.addr), [&](RequestContext &c) {
                VP_CHECK(log.inside++ == 0, "parallel-handlers", "the handler runs twice at a time");
                struct Out { std::atomic<int> &i; ~Out() { i--; } } out{ log.inside };
                M           req = fromLib(c.request);
                { std::scoped_lock l(log.m); log.calls.push_back(req); }
                const char act = req.data.empty() ? 'E' : req.data[0];
                VP_CHECK(c.reply.data.empty() && c.reply.error.empty() && text(c.reply.clientRequestID) == req.reqId && c.reply.topic.str() == req.topic, "reply-not-prepared", fromLib(c.reply).str());
                setData(c.reply.data, "re:" + req.data);
                switch (act) {
                case 'T': throw std::runtime_error("oh no " + req.data.substr(1));
                case 'I': throw 42;
                case 'S': throw std::string("text");
                case 'P': throw ProtocolException("protocol {}", 7);
                case 'C': c.reply.topic = mdp::Message::URI("/changed?b=" + std::to_string(req.data.size())); break;
                case 'N': c.reply.error = "error " + std::to_string(req.data.size()); break;
                case 'X': c.reply.command = mdp::Command::Partial; break;
                case 'Q': { mdp::Message n; n.topic = mdp::Message::URI(std::string(W::name)); setData(n.data, "note"); self->notify(std::move(n)); break; }
                default: break;
                }
            },
            hub.context, settings(int(r.range(2, 20)), 1'000'000));
    self = &worker;
    std::thread t([&] { worker.run(); });
    if (hub.expectReady(spec.name, spec.description, "at start")) {
        std::uint64_t h = vp::fnv(spec.name);
        for (int step = int(r.range(2, 30)); step > 0; step--) {
            if (r.chance(15)) { M hb; hb.proto = zp::W03, hb.cmd = zp::Heartbeat, hb.service = spec.name; hub.toWorker(hb); }
            std::vector<M> sent;
            for (int n = int(r.range(1, 6)); n > 0; n--) {
                M m;
                m.proto = zp::W03, m.cmd = r.chance(50) ? zp::Get : zp::Set, m.service = r.bytes(1, 8), m.reqId = genData(r), m.topic = genTopic(r, spec.name), m.rbac = genToken(r, spec), m.data = genData(r);
                if (!m.data.empty() || r.chance(60)) m.data = std::string(1, r.pick(ACTIONS)) + m.data;
                hub.toWorker(m);
                sent.push_back(m);
            }
            for (auto &q : sent) {
                auto a = hub.next();
                ctx().crumb("request", q.str());
                VP_CHECK(a.has_value(), "no-reply", q.str());
                if (!a) { hub.id.clear(); break; }
                const std::string role = roleOf(q.rbac);
                std::string       rights = spec.other;
                for (auto &[n, p] : spec.roles) if (n == role) { rights = p; break; }
                const bool allowed = rights.find(q.cmd == zp::Get ? 'r' : 'w') != std::string::npos;
                std::optional<M> call;
                { std::scoped_lock l(log.m); if (!log.calls.empty()) { call = log.calls.front(); if (allowed) log.calls.pop_front(); } }
                const std::string what = q.str() + " -> " + a->str();
                VP_CHECK(a->service == q.service && a->reqId == q.reqId && a->rbac == q.rbac && a->src == hub.id, "reply-misdirected", what);
                const char act = q.data.empty() ? 'E' : q.data[0];
                if (!allowed) {
                    VP_CHECK(a->cmd == zp::Final && !a->error.empty() && a->data.empty() && a->topic == q.topic, "not-denied", what);
                    VP_CHECK(a->error.find("denied") != std::string::npos, "not-denied", what);
                    VP_CHECK(!call || call->reqId != q.reqId || call->data != q.data || call->rbac != q.rbac, "handler-ran-without-permission", what);
                    ctx().count("denied");
                } else {
                    M want = q; want.src.clear();
                    VP_CHECK(call && call->frames() == want.frames(), "handler-saw-something-else", what + " handler: " + (call ? call->str() : "not called"));
                    const bool fails = act == 'T' || act == 'I' || act == 'S' || act == 'P';
                    if (fails) {
                        VP_CHECK(a->cmd == zp::Final && !a->error.empty() && a->data.empty() && a->topic == q.topic, "failure-not-reported", what);
                        if (act == 'T' && q.data.find('\0') == std::string::npos) VP_CHECK(a->error.find("oh no " + q.data.substr(1)) != std::string::npos && a->error.find(spec.name) != std::string::npos, "failure-text-lost", what);
                    } else {
                        VP_CHECK(a->data == "re:" + q.data, "wrong-reply-data", what);
                        VP_CHECK(a->error == (act == 'N' ? "error " + std::to_string(q.data.size()) : ""), "wrong-reply-error", what);
                        VP_CHECK(a->topic == (act == 'C' ? "/changed?b=" + std::to_string(q.data.size()) : q.topic), "wrong-reply-topic", what);
                        VP_CHECK(a->cmd == (act == 'X' ? zp::Partial : zp::Final), "wrong-reply-command", what);
                    }
                    ctx().count(std::string("action ") + (std::string_view("TISPCNXQ").find(act) == std::string_view::npos ? 'E' : act));
                }
                h = vp::mix(h, vp::fnv(rights + role + act) + q.cmd);
            }
            if (hub.id.empty()) break;
        }
        ctx().distinct(h);
        if (r.chance(50)) { M d; d.proto = zp::W03, d.cmd = zp::Disconnect, d.data = "broker shutdown"; hub.toWorker(d); }
        else worker.shutdown();
        auto m = hub.next();
        VP_CHECK(m && m->cmd == zp::Disconnect && m->service == spec.name, "no-goodbye", m ? m->str() : "nothing");
        if (!m) worker.shutdown();
    } else worker.shutdown();
    t.join();
    std::scoped_lock l(log.m);
    VP_CHECK(log.calls.empty(), "handler-called-too-often", std::to_string(log.calls.size()) + " calls nobody asked for");
    VP_CHECK(!hub.next(3), "message-after-goodbye", "");
}

static void w01(vp::Ctx &c) {
    using namespace majordomo;
    using Reader = Role<"READER", Permission::RO>;
    using Writer = Role<"WRITER", Permission::WO>;
    using Oper   = Role<"oper.A-1", Permission::RW>;
    using Nobody = Role<"BANNED", Permission::NONE>;
    using W0     = BasicWorker<"/plain">;
    using W1     = BasicWorker<"/with.none", description<"a described service">, rbac<ADMIN, Reader, Writer, NONE>>;
    using W2     = BasicWorker<"/open/ro", rbac<Nobody, ANY_RO>, description<"ro">>;
    using W3     = BasicWorker<"/last.writes", Reader, Nobody, Oper, Writer>;
    using W4     = BasicWorker<"/any", rbac<Oper>, Nobody, ANY>;
    const Spec s0{ "/plain", "", { { "ADMIN", "rw" } }, "rw" };
    const Spec s1{ "/with.none", "a described service", { { "ADMIN", "rw" }, { "READER", "r" }, { "WRITER", "w" }, { "NONE", "" } }, "" };
    const Spec s2{ "/open/ro", "ro", { { "ADMIN", "rw" }, { "BANNED", "" }, { "ANY", "r" } }, "r" };
    const Spec s3{ "/last.writes", "", { { "ADMIN", "rw" }, { "READER", "r" }, { "BANNED", "" }, { "oper.A-1", "rw" }, { "WRITER", "w" } }, "w" };
    const Spec s4{ "/any", "", { { "ADMIN", "rw" }, { "oper.A-1", "rw" }, { "BANNED", "" }, { "ANY", "rw" } }, "rw" };
    const int  rounds = std::getenv("VP_LIGHT") ? 150 : 900;
    for (std::uint64_t i = 0; i < vp::scaled(rounds / c.shards) && !c.anyViolation(); i++) {
        vp::Rng r(c.seed * 7919 + i * 131 + c.shard);
        switch (r.below(5)) {
        case 0: requests<W0>(r, s0); break;
        case 1: requests<W1>(r, s1); break;
        case 2: requests<W2>(r, s2); break;
        case 3: requests<W3>(r, s3); break;
        default: requests<W4>(r, s4);
        }
    }
    // the parts of a token
    for (std::uint64_t i = 0; i < vp::scaled(20000); i++) {
        vp::Rng     r(c.seed * 104729 + i * 31 + c.shard);
        std::string t = genToken(r, s1), role = roleOf(t), hash;
        if (t.substr(0, 5) == "RBAC=" && t.find(',') != std::string::npos) hash = t.substr(t.find(',') + 1);
        std::string exact(t);
        VP_CHECK(majordomo::parse_rbac::role(exact) == role && majordomo::parse_rbac::hash(exact) == hash, "token-parsed-wrongly", t);
        VP_CHECK(majordomo::parse_rbac::roleAndHash(exact) == std::make_pair(std::string_view(role), std::string_view(hash)), "token-parsed-wrongly", t);
    }
}

// ---------------------------------------------------------------------------------------------- W02
using NW = majordomo::BasicWorker<"/dev", majordomo::description<"notifier">>;
struct Topic { // what the checker knows about a topic: service and parameters
    std::string                        service;
    std::map<std::string, std::string> params;
    std::string                        uri() const {
        std::string s = service, sep = "?";
        for (auto &[k, v] : params) s += sep + k + "=" + v, sep = "&";
        return s;
    }
    std::string zmq() const { return uri() + "#"; }
    bool operator<(const Topic &o) const { return uri() < o.uri(); }
};
static bool matches(const Topic &n, const Topic &s) {
    if (n.service != s.service || s.service != "/dev") return false; // a worker knows the subscriptions of its own service
    if (!s.params.count("a")) return true; // the only filtered key
    return n.params.count("a") && n.params.at("a") == s.params.at("a");
}
static Topic genSub(vp::Rng &r) {
    Topic t{ r.pick(std::vector<std::string>{ "/dev", "/dev", "/dev", "/dev", "/other", "/dev/sub", "/de" }), {} };
    if (r.chance(60)) t.params["a"] = std::to_string(r.below(3));
    if (r.chance(30)) t.params["b"] = std::to_string(r.below(2));
    return t;
}
static Topic genNote(vp::Rng &r) {
    Topic t{ r.chance(92) ? "/dev" : r.pick(std::vector<std::string>{ "/other", "/dev/sub", "/de", "/dev2" }), {} };
    if (r.chance(70)) t.params["a"] = std::to_string(r.below(3));
    if (r.chance(30)) t.params["b"] = std::to_string(r.below(2));
    return t;
}

static void notifications(vp::Rng &r) {
    Hub        hub;
    const bool silence = r.chance(12); // the broker falls silent: the worker has to come back by itself
    const int  beat    = silence ? int(r.range(3, 8)) : int(r.range(1, 10));
    NW         worker(URI<STRICT>(hub.addr), [](RequestContext &c) { c.reply.data = IoBuffer("pong"); }, hub.context, settings(beat, silence ? int(r.range(2, 4)) : 1'000'000));
    worker.addFilter<NumberFilter<std::int64_t>>("a");
    std::set<Topic> subs;
    const Topic     mark{ "/dev", { { "a", "9" } } }; // always subscribed: each thread ends a phase with such a notification, all of its earlier ones are dealt with before
    hub.subscribe(mark.zmq()), subs.insert(mark);
    auto removable = [&] { auto it = std::next(subs.begin(), long(r.below(subs.size()))); return it->params.count("a") && it->params.at("a") == "9" ? subs.end() : it; };
    for (int n = int(r.below(4)); n > 0; n--) if (auto t = genSub(r); subs.insert(t).second) hub.subscribe(t.zmq()); // before the worker is there
    std::thread run([&] { worker.run(); });
    bool        ok = hub.expectReady("/dev", "notifier", "at start");
    auto        own = [&](const std::set<Topic> &s) { std::set<std::string> x; for (auto &t : s) if (t.service == "/dev") x.insert(t.zmq()); return x; };
    auto        seen = [&] { std::set<std::string> x; for (auto &t : worker.activeSubscriptions()) x.insert(t.toZmqTopic()); return x; };
    // the worker has seen all changes made so far once it knows of a subscription made after them
    std::string fence;
    auto        synced = [&] { auto x = own(subs); x.insert(fence); return seen() == x; };
    auto        sync   = [&, n = 0]() mutable {
        if (!fence.empty()) hub.unsubscribe(fence);
        fence = Topic{ "/dev", { { "a", std::to_string(100 + n++) } } }.zmq();
        hub.subscribe(fence);
        return eventually(synced);
    };
    std::map<int, int> nextOf; // numbering per notifying thread
    // When time jumps, a thread's connection to the worker can be given up with a notification still under way, which is then overtaken by
    // those the thread sends next. Outside of this harness nothing is under way for that long, so order is not judged in such phases.
    std::set<std::string> late;
    std::string           story;
    std::uint64_t      h = vp::mix(beat, silence);
    for (int phase = int(r.range(1, 5)); ok && phase > 0; phase--) {
        // the set of subscriptions changes and becomes known to the worker
        for (int n = int(r.below(5)); n > 0; n--) {
            if (auto it = removable(); it != subs.end() && r.chance(45)) { hub.unsubscribe(it->zmq()); subs.erase(it); }
            else if (auto t = genSub(r); subs.insert(t).second) hub.subscribe(t.zmq());
        }
        ok = sync();
        VP_CHECK(ok, "subscriptions-differ", "worker: " + std::to_string(seen().size()) + " broker: " + std::to_string(own(subs).size()));
        if (!ok) break;
        if (silence) {
            const int before = hub.readies;
            ok = hub.expectReady("/dev", "notifier", "after the broker fell silent");
            ctx().count("reconnects after silence", std::uint64_t(hub.readies - before));
            ok = ok && eventually(synced);
            VP_CHECK(ok, "subscriptions-differ-after-reconnect", "");
            continue;
        }
        const bool      churn = r.chance(30), drop = !churn && r.chance(25);
        std::set<Topic> stable = subs, ever = subs;
        if (drop) { // the broker does not know this worker (any more)
            if (auto it = removable(); r.chance(60) && it != subs.end()) { hub.unsubscribe(it->zmq()); subs.erase(it); }
            M d; d.proto = zp::W03, d.cmd = zp::Disconnect; if (r.chance(50)) d.data = "unknown worker";
            hub.toWorker(d);
            ok = hub.expectReady("/dev", "notifier", "after being disconnected");
            ok = ok && eventually(synced);
            VP_CHECK(ok, "subscriptions-differ-after-reconnect", "");
            ctx().count("reconnects on request");
            if (!ok) break;
            stable = ever = subs;
        }
        struct Note { int thread, seq; Topic t; bool invalid; std::string uri, data; };
        std::vector<std::vector<Note>> plan(std::size_t(r.range(1, 4)));
        for (std::size_t t = 0; t < plan.size(); t++)
            for (int n = int(r.range(1, 25)); n > 0; n--) {
                Note x{ int(t), nextOf[int(t)]++, genNote(r), r.chance(4), "", "" };
                if (n == 1) x.t = mark, x.invalid = false;
                x.uri  = x.invalid ? r.pick(std::vector<std::string>{ "/", "", "?a=1", "//", "/d-v/", "mds://host/" }) : x.t.uri();
                x.data = std::to_string(t) + ":" + std::to_string(x.seq) + ":" + genData(r);
                plan[t].push_back(x);
                h = vp::mix(h, vp::fnv(x.uri));
            }
        std::vector<std::thread> threads;
        std::atomic<int>         failed{ 0 };
        const auto               salt = r.next();
        for (auto &p : plan)
            threads.emplace_back([&, &p = p] {
                vp::Rng q(salt + std::uint64_t(&p - plan.data()));
                for (auto &x : p) {
                    mdp::Message m;
                    m.topic = mdp::Message::URI(x.uri);
                    setData(m.data, x.data);
                    if (!worker.notify(std::move(m))) failed++;
                    if (q.chance(20)) std::this_thread::sleep_for(std::chrono::microseconds(q.below(500)));
                }
            });
        std::atomic<bool> over{ false };
        std::thread       jumper;
        const bool        jumps = r.chance(40);
        story += std::string(" | ") + (churn ? "changing " : drop ? "reconnected " : "fixed ") + (jumps ? "with time jumps" : "") + [&] { std::string d; for (auto &t : ever) d += " " + t.uri(); return d; }();
        if (jumps) // time passes: what was not used for a while is given up by the worker
            jumper = std::thread([&, q = vp::Rng(salt + 99)]() mutable {
                while (!over) { g_offset.fetch_add(std::int64_t(q.range(1, 40)) * 1'000'000'000, std::memory_order_relaxed); std::this_thread::sleep_for(std::chrono::microseconds(q.below(400))); }
            });
        if (churn)
            for (int n = int(r.range(1, 12)); n > 0; n--) {
                if (auto it = removable(); it != subs.end() && r.chance(45)) { hub.unsubscribe(it->zmq()); stable.erase(*it); subs.erase(it); }
                else if (auto t = genSub(r); subs.insert(t).second) { hub.subscribe(t.zmq()); ever.insert(t); stable.erase(t); }
                if (r.chance(50)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(600)));
            }
        for (auto &t : threads) t.join();
        over = true;
        if (jumper.joinable()) jumper.join(), ctx().count("phases with time jumps");
        VP_CHECK(failed == 0, "notify-refused", "");
        // what has to arrive, and what may
        std::map<std::string, const Note *> may;
        std::set<std::string>               must;
        if (jumps) for (auto &p : plan) for (auto &x : p) if (!x.invalid) late.insert(x.data);
        for (auto &p : plan)
            for (auto &x : p) {
                if (x.invalid) continue;
                if (std::any_of(ever.begin(), ever.end(), [&](auto &s) { return matches(x.t, s); })) may[x.data] = &x;
                if (std::any_of(stable.begin(), stable.end(), [&](auto &s) { return matches(x.t, s); })) must.insert(x.data);
            }
        std::map<int, int> last;
        auto               take = [&](const M &m) {
            if (m.cmd != zp::Notify) { ctx().violation("unexpected-message", m.str()); ok = false; return; }
            auto it = may.find(m.data);
            if (it == may.end() && late.erase(m.data)) return;
            VP_CHECK(it != may.end(), "notification-not-due", "delivered twice or without a subscription: " + m.str() + [&] { std::string d = "; subscribed"; for (auto &t : ever) d += " " + t.uri(); return d + (churn ? " (changing)" : drop ? " (reconnected)" : "") + story; }());
            if (it == may.end()) return;
            auto &x = *it->second;
            VP_CHECK(m.topic == x.uri && m.service == "/dev" && m.rbac == RBACNONE && m.error.empty() && m.src == hub.id, "notification-altered", m.str());
            VP_CHECK(jumps || !last.count(x.thread) || last[x.thread] < x.seq, "notification-order", m.str());
            last[x.thread] = x.seq;
            must.erase(m.data);
            late.erase(m.data);
            may.erase(it);
            ctx().count("notifications forwarded");
        };
        while (ok && !must.empty()) {
            auto m = hub.next();
            VP_CHECK(m.has_value(), "notification-lost", [&] { std::string d = std::to_string(must.size()) + " missing, e.g. " + may[*must.begin()]->uri + " '" + *must.begin() + "'; subscribed"; for (auto &t : stable) d += " " + t.uri(); return d + (churn ? " (changing)" : drop ? " (reconnected)" : "") + story; }());
            if (!m) { ok = false; break; }
            take(*m);
        }
        if (!ok) break;
        // the worker still answers; whatever it forwards too much comes before or shortly after
        for (int ping = 0; ok && ping < 3; ping++) {
            M q; q.proto = zp::W03, q.cmd = zp::Get, q.service = "cl", q.reqId = std::to_string(ping), q.topic = "/dev";
            hub.toWorker(q);
            for (;;) {
                auto m = hub.next();
                VP_CHECK(m.has_value(), "worker-stuck", "no reply after notifications");
                if (!m) { ok = false; break; }
                if (m->cmd == zp::Final) { VP_CHECK(m->reqId == q.reqId && m->data == "pong", "wrong-pong", m->str()); break; }
                take(*m);
            }
        }
        if (r.chance(20)) { // idle: heartbeats come
            const int b = hub.beats;
            VP_CHECK(eventually([&] { auto m = hub.next(1); if (m) take(*m); return hub.beats > b; }), "no-heartbeat", "");
        }
        if (churn) { ok = ok && sync(); VP_CHECK(ok, "subscriptions-differ", "after changes"); }
        ctx().count(churn ? "phases with changing subscriptions" : "phases with fixed subscriptions");
    }
    ctx().distinct(h);
    if (ok && !silence && r.chance(40)) { M d; d.proto = zp::W03, d.cmd = zp::Disconnect, d.data = "broker shutdown"; hub.toWorker(d); }
    else worker.shutdown();
    run.join();
    bool bye = false;
    while (auto m = hub.next(2)) {
        if (silence && m->cmd == zp::Ready) continue;
        VP_CHECK(!bye, "message-after-goodbye", m->str());
        if (m->cmd == zp::Disconnect) bye = true;
        else if (ok && !late.erase(m->data)) ctx().violation("notification-not-due", "at the end: " + m->str());
    }
    VP_CHECK(bye || !ok, "no-goodbye", "");
}
static void w02(vp::Ctx &c) {
    const int rounds = std::getenv("VP_LIGHT") ? 240 : 900;
    for (std::uint64_t i = 0; i < vp::scaled(rounds / c.shards) && !c.anyViolation(); i++) {
        vp::Rng r(c.seed * 6151 + i * 977 + std::uint64_t(c.shard) * 31);
        c.crumb("notifications", std::to_string(i));
        notifications(r);
    }
}

// ---------------------------------------------------------------------------------------------- W03
static bool same(const TCtx &a, const TCtx &b) { return a.ctx == b.ctx && a.s == b.s && a.i32 == b.i32 && a.flag == b.flag && a.contentType == b.contentType; }
static bool same(const TIn &a, const TIn &b) { return a.name == b.name && a.v == b.v && a.n == b.n && a.b == b.b; }
static bool same(const TOut &a, const TOut &b) { return a.text == b.text && a.v == b.v && a.d == b.d && a.ok == b.ok; }
static std::string show(const TCtx &c) { return c.ctx.toString() + " s='" + c.s + "' i32=" + std::to_string(c.i32) + " flag=" + std::to_string(c.flag) + " " + std::string(c.contentType.typeName()); }
static TCtx genCtx(vp::Rng &r) {
    TCtx c;
    if (r.chance(60)) c.ctx = TimingCtx(int(r.below(50)), r.chance(50) ? int(r.below(9)) : -1, r.chance(50) ? int(r.below(9)) : -1, -1);
    c.s = r.bytes(0, 10), c.i32 = int(r.next()), c.flag = r.chance(50);
    c.contentType = r.pick(std::vector<MIME::MimeType>{ MIME::JSON, MIME::BINARY, MIME::CMWLIGHT, MIME::UNKNOWN });
    return c;
}
static std::string words(vp::Rng &r) { return r.str("abc XYZ019_-.", 0, 20); }
static TIn         genIn(vp::Rng &r) {
    TIn i;
    i.name = words(r), i.n = std::int64_t(r.below(1000)), i.b = r.chance(50);
    for (int n = int(r.below(6)); n > 0; n--) i.v.push_back(double(r.range(-1000, 1000)) / 8);
    return i;
}
static TOut answer(const TCtx &c, const TIn &i) {
    TOut o;
    o.text = i.name + "/" + std::to_string(c.i32), o.d = double(i.n) / 4, o.ok = !i.b;
    for (auto d : i.v) o.v.push_back(int(d));
    return o;
}
template<typename T>
static std::string encode(MIME::MimeType m, const T &x) {
    IoBuffer b;
    if (m == MIME::JSON) opencmw::serialise<opencmw::Json>(b, x);
    else if (m == MIME::CMWLIGHT) opencmw::serialise<opencmw::CmwLight>(b, x);
    else opencmw::serialise<opencmw::YaS>(b, x);
    return text(b);
}
template<typename T>
static bool decode(MIME::MimeType m, const std::string &d, T &x) {
    IoBuffer b(d.data(), d.size());
    try {
        if (m == MIME::JSON) return opencmw::deserialise<opencmw::Json, ProtocolCheck::ALWAYS>(b, x).exceptions.empty();
        if (m == MIME::CMWLIGHT) return opencmw::deserialise<opencmw::CmwLight, ProtocolCheck::ALWAYS>(b, x).exceptions.empty();
        return opencmw::deserialise<opencmw::YaS, ProtocolCheck::ALWAYS>(b, x).exceptions.empty();
    } catch (...) { return false; }
}
static std::string topicOf(const std::string &service, const TCtx &c) { return URI<STRICT>::factory(URI<STRICT>(service)).setQuery(query::serialise(c)).build().str(); }

using TW = majordomo::Worker<"/typed", TCtx, TIn, TOut, majordomo::description<"typed">, majordomo::rbac<majordomo::ADMIN, majordomo::ANY_RO>>;
static void typed(vp::Rng &r) {
    Hub hub;
    struct Call { TCtx c; TIn i; };
    std::mutex        m;
    std::deque<Call>  calls;
    TW                worker(
            URI<STRICT>(hub.addr), [&](RequestContext &raw, const TCtx &c, const TIn &i, TCtx &rc, TOut &o) {
                { std::scoped_lock l(m); calls.push_back({ c, i }); }
                VP_CHECK(same(rc, c), "reply-context-not-prepared", show(rc));
                o = answer(c, i);
                if (i.n % 10 == 3) throw std::invalid_argument("no such thing " + i.name);
                if (i.n % 10 == 4) rc.i32 = int(unsigned(c.i32) + 1u), rc.s += "x", rc.contentType = MIME::JSON;
                if (i.n % 10 == 5) throw 5;
            },
            hub.context, settings(int(r.range(2, 20)), 1'000'000));
    const int      subKind = int(r.below(3)); // all, by number, by type
    const int      want    = int(r.below(3));
    std::string    sub     = subKind == 0 ? "/typed" : subKind == 1 ? "/typed?i32=" + std::to_string(want) : "/typed?contentType=application%2Fjson";
    const auto     zsub    = mdp::Topic::fromMdpTopic(mdp::Message::URI(sub)).toZmqTopic();
    hub.subscribe(zsub);
    std::thread t([&] { worker.run(); });
    bool        ok = hub.expectReady("/typed", "typed", "at start") && eventually([&] { return worker.activeSubscriptions().size() == 1; });
    for (int step = int(r.range(5, 60)); ok && step > 0; step--) {
        if (r.chance(25)) { // a typed notification
            TCtx c = genCtx(r);
            if (r.chance(80)) c.i32 = int(r.below(3));
            TOut o = answer(c, genIn(r));
            VP_CHECK(worker.notify(c, o), "notify-refused", show(c));
            if (subKind == 0 || (subKind == 1 && c.i32 == want) || (subKind == 2 && c.contentType == MIME::JSON)) {
                auto a = hub.next();
                VP_CHECK(a && a->cmd == zp::Notify, "notification-lost", show(c) + " for " + sub + (a ? a->str() : ""));
                if (!a) break;
                TOut got;
                TCtx gc = query::deserialise<TCtx>(mdp::Message::URI(a->topic).queryParamMap());
                VP_CHECK(a->topic.substr(0, 6) == "/typed" && same(gc, c), "notification-context", show(c) + " is " + a->topic);
                VP_CHECK(decode(c.contentType == MIME::UNKNOWN ? MIME::BINARY : c.contentType, a->data, got) && same(got, o), "notification-data", a->str());
                ctx().count("typed notifications");
            } else { ctx().count("typed notifications not subscribed to"); }
            continue;
        }
        const TCtx c = genCtx(r);
        const TIn  i = genIn(r);
        M          q;
        q.proto = zp::W03, q.cmd = r.chance(50) ? zp::Get : zp::Set, q.service = r.bytes(1, 8), q.reqId = genData(r), q.topic = topicOf("/typed", c), q.rbac = r.chance(80) ? "RBAC=ADMIN,abc" : "RBAC=ANY,abc";
        const bool denied = q.rbac[5] == 'A' && q.rbac[6] == 'N' && q.cmd == zp::Set;
        const auto mime   = c.contentType == MIME::UNKNOWN ? MIME::BINARY : c.contentType;
        const int  kind   = int(r.below(10)); // 0: no data, 1: damaged, 2: type not supported, 3: parameters nobody asked for; else fine
        TIn        expect = i;
        bool       bad    = false;
        q.data            = encode(mime, i);
        if (kind == 0) q.data.clear(), expect = TIn{};
        if (kind == 1) {
            bad = true;
            if (mime == MIME::JSON) q.data = r.chance(50) ? q.data.substr(0, q.data.find_last_of('}')) : "xyz";
            else q.data = r.chance(50) ? "this is not the format" : q.data.substr(0, std::size_t(r.chance(50) ? r.range(1, 3) : r.range(5, 8)));
        }
        if (kind == 2) { TCtx x = c; x.contentType = r.pick(std::vector<MIME::MimeType>{ MIME::PNG, MIME::CSV, MIME::TEXT }); q.topic = topicOf("/typed", x); bad = true; }
        if (kind == 3) q.topic += (q.topic.find('?') == std::string::npos ? "?" : "&") + std::string("unknown=1&i33=2");
        ctx().crumb("typed request", q.str());
        hub.toWorker(q);
        auto a = hub.next();
        VP_CHECK(a.has_value(), "no-reply", q.str());
        if (!a) break;
        const std::string what = q.str() + " -> " + a->str();
        std::optional<Call> call;
        { std::scoped_lock l(m); VP_CHECK(calls.size() <= 1, "callback-called-too-often", what); if (!calls.empty()) call = calls.front(), calls.clear(); }
        VP_CHECK(a->cmd == zp::Final && a->service == q.service && a->reqId == q.reqId && a->rbac == q.rbac, "reply-misdirected", what);
        if (denied || bad) {
            VP_CHECK(!a->error.empty() && a->data.empty() && a->topic == q.topic, denied ? "not-denied" : "bad-request-not-refused", what);
            VP_CHECK(!call, denied ? "handler-ran-without-permission" : "handler-ran-on-bad-request", what);
            ctx().count(denied ? "typed requests denied" : "typed requests refused");
            continue;
        }
        VP_CHECK(call && same(call->c, c) && same(call->i, expect), "callback-saw-something-else", what + (call ? show(call->c) + " name " + call->i.name : " not called"));
        if (expect.n % 10 == 3 || expect.n % 10 == 5) {
            VP_CHECK(!a->error.empty() && a->data.empty() && a->topic == q.topic, "failure-not-reported", what);
            if (expect.n % 10 == 3) VP_CHECK(a->error.find("no such thing " + expect.name) != std::string::npos, "failure-text-lost", what);
        } else {
            TCtx rc = c;
            if (expect.n % 10 == 4) rc.i32 = int(unsigned(c.i32) + 1u), rc.s += "x", rc.contentType = MIME::JSON;
            TOut       got;
            const auto gc = query::deserialise<TCtx>(mdp::Message::URI(a->topic).queryParamMap());
            VP_CHECK(a->error.empty() && same(gc, rc) && a->topic.substr(0, 6) == "/typed", "reply-context", what);
            VP_CHECK(decode(rc.contentType == MIME::UNKNOWN ? MIME::BINARY : rc.contentType, a->data, got) && same(got, answer(c, expect)), "reply-data", what);
        }
        ctx().distinct(vp::mix(vp::fnv(q.topic), vp::fnv(q.data)));
        ctx().count("typed requests " + std::string(mime.typeName()));
    }
    if (r.chance(50)) { M d; d.proto = zp::W03, d.cmd = zp::Disconnect, d.data = "broker shutdown"; hub.toWorker(d); }
    else worker.shutdown();
    t.join();
    while (auto x = hub.next(2)) VP_CHECK(x->cmd == zp::Disconnect || !ok, "notification-not-due", x->str());
}
static void w03(vp::Ctx &c) {
    for (std::uint64_t i = 0; i < vp::scaled(600 / c.shards) && !c.anyViolation(); i++) {
        vp::Rng r(c.seed * 3571 + i * 271 + std::uint64_t(c.shard) * 17);
        typed(r);
    }
}

void vp_main(vp::Ctx &c) {
    if (c.mode == "w03") w03(c);
    if (c.mode == "w01") w01(c);
    if (c.mode == "w02") w02(c);
}
