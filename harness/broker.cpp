// Q01 MDP framing, Q02 requests and replies through the broker, Q03 notifications, Q04 hostile peers.
// The real broker runs single-threaded in virtual time over the libzmq stand-in; raw peers around it.
#include "zpeer.hpp"
#include <majordomo/Broker.hpp>
#include <majordomo/Constants.hpp>

using vp::ctx;
using namespace opencmw;
using namespace opencmw::majordomo;
using namespace std::chrono_literals;
using zp::M;
using zp::Peer;

// ---------------------------------------------------------------- virtual time
static std::atomic<std::int64_t> g_now{ 1'000'000'000'000 }; // ns
std::chrono::steady_clock::time_point std::chrono::_V2::steady_clock::now() noexcept { return time_point(duration(g_now.load())); }
static void advance(std::int64_t ms) { g_now += ms * 1'000'000; }
static std::int64_t nowMs() { return g_now.load() / 1'000'000; }

using TestBroker = Broker<ADMIN, Role<"BOSS", Permission::RW>, Role<"USER", Permission::RW>, ANY>;
static int priority(const std::string &role) { return role == "ADMIN" ? 0 : role == "BOSS" ? 1 : role == "USER" ? 2 : 3; }

static std::string num(std::uint64_t n) { return std::to_string(n); }
static std::string token() { static std::uint64_t n = 0; return "tok" + num(++n) + "."; }

struct Sys { // a broker and how to run it until it would block
    TestBroker  b;
    std::string trace;
    static Settings make(std::int64_t clientTimeout) {
        Settings s;
        s.clientTimeout = std::chrono::milliseconds(clientTimeout);
        return s;
    }
    explicit Sys(std::int64_t clientTimeout) : b("/testbroker", make(clientTimeout)) { vpzmq::pollNeverBlocks = true; }
    void *z() { return b.context.zmq_ptr; }
    Peer dealer() { return Peer(z(), ZMQ_DEALER, INTERNAL_ADDRESS_BROKER.str().data()); }
    void note(const std::string &s) { trace += s + "; "; if (trace.size() > 6000) trace = trace.substr(trace.size() - 5000); }
    bool drain() {
        ctx().crumb("drain", trace);
        try {
            for (int i = 0; i < 400; ++i) {
                b.processMessages();
                if (vpzmq::lastPollResult <= 0) return true;
            }
            ctx().violation("broker-does-not-settle", "after 400 rounds the broker still has input; " + trace);
        } catch (const std::exception &e) {
            ctx().violation("broker-throws", std::string("an exception ends the broker: ") + e.what() + "; " + trace);
        } catch (...) {
            ctx().violation("broker-throws", "an exception ends the broker; " + trace);
        }
        return false;
    }
    void fail(const char *key, const std::string &what) { ctx().violation(key, what + " | ..." + trace.substr(trace.size() > 2500 ? trace.size() - 2500 : 0)); }
};

// ---------------------------------------------------------------- Q02 / Q04
static std::string stripSlash(std::string s) { return s.starts_with("/") ? s.substr(1) : s; }

struct Req {
    int         client; // -1: REST
    int         step;
    M           sent;
    std::string service; // who has to serve it
    std::string role;
    bool        delivered = false, answered = false;
    std::int64_t at = 0;
};
struct Cl {
    Peer         p;
    bool         alive = true;
    std::int64_t last = 0, settled = 0; // last request; the same when the current step began
    std::vector<M> expect; // replies that must arrive
    std::vector<M> maybe;  // replies that may arrive (the broker may have forgotten the client)
};
struct Wk {
    Peer         p;
    std::string  service;
    bool         known = true; // to the broker
    bool         mute = false;
    std::int64_t last = 0;     // sign of life that counts
    int          req = -1;     // being worked on
    bool         disconnectDue = false;
    int          partials = 0;
};

struct Hist {
    vp::Rng                           &r;
    std::int64_t                       clientTimeout;
    Sys                                s;
    std::vector<Cl>                    cl;
    std::vector<Wk>                    wk;
    std::vector<Req>                   rq;
    std::map<std::string, std::string> services; // name -> description
    std::map<std::string, int>         byToken;
    int                                step = 0;
    bool                               hostile = false;
    std::vector<Peer>                  foes;
    std::vector<M>                     restExpect;
    static constexpr std::int64_t      EXPIRY = 3000, HB = 1000;
    std::uint64_t                      h = 7;

    Hist(vp::Rng &rng, std::int64_t ct) : r(rng), clientTimeout(ct), s(ct) {
        for (auto n : { "/mmi.dns", "/mmi.echo", "/mmi.service", "/mmi.openapi" }) services[n] = "";
        if (r.chance(60)) {
            opencmw::majordomo::rest::Settings rs;
            std::ignore = s.b.bindRest(rs);
            rest = true;
        }
        vprest::port() = {};
        s.drain();
    }
    bool rest = false;

    std::optional<std::string> serviceFor(const std::string &name) {
        std::optional<std::string> best;
        for (auto &[n, d] : services)
            if (stripSlash(name).starts_with(stripSlash(n)) && (!best || n.size() > best->size())) best = n;
        return best;
    }
    bool live(const Wk &w) { return w.known && !(w.req < 0 && nowMs() > w.last + EXPIRY); }

    void opReady() {
        static const char *names[] = { "/a", "/a/b", "/dev", "/devX", "/svc/long.name", "/t.est_1" };
        Wk w;
        w.p       = s.dealer();
        w.service = r.pick(names);
        w.last    = nowMs();
        M m{ .src = {}, .proto = zp::W03, .service = w.service, .reqId = {}, .topic = r.chance(50) ? "/" : "", .data = "API " + token(), .error = {}, .rbac = "RBAC=NONE,", .cmd = zp::Ready };
        services.try_emplace(w.service, m.data);
        w.p.send(m);
        s.note("w" + num(wk.size()) + " READY " + w.service);
        wk.push_back(std::move(w));
    }
    void opReadyAgain(Wk &w, int i) {
        if (w.req >= 0 || !live(w) || w.mute) return;
        w.p.send(M{ .src = {}, .proto = zp::W03, .service = w.service, .reqId = {}, .topic = "/", .data = "other description", .error = {}, .rbac = {}, .cmd = zp::Ready });
        w.last = nowMs();
        s.note("w" + num(i) + " READY again");
    }
    M makeRequest(std::string &role) {
        M m;
        m.proto   = zp::C03;
        m.cmd     = r.chance(50) ? zp::Get : zp::Set;
        static const char *names[] = { "/a", "/a/b", "/dev", "/devX", "/svc/long.name", "/t.est_1", "a", "dev", "/a/b/c", "/a/sub", "/dev/x/y", "/t.est_1/q", "/unknown", "/zz/y", "zz", "/mmi.echo", "/mmi.service", "/mmi.openapi" };
        m.service = r.pick(names);
        m.reqId   = r.chance(10) ? "" : r.chance(50) ? num(r.below(1000)) : r.bytes(1, 12);
        static const char *topics[] = { "/", "", "/a?x=1&y=%20z", "/dev/x#frag", "http://host:80/p?q", "/t.est_1?contentType=text%2Fhtml" };
        m.topic   = r.pick(topics);
        static const char *roles[] = { "ADMIN", "BOSS", "USER", "ANY", "UNKNOWN", "", "admin" };
        role      = r.pick(roles);
        m.rbac    = "RBAC=" + role + ",hash" + num(r.below(100));
        if (r.chance(10)) { m.rbac = r.bytes(0, 8); role = ""; if (m.rbac.starts_with("RBAC=")) m.rbac = ""; }
        m.data    = token() + r.bytes(0, r.chance(5) ? 3000 : 20);
        m.error   = r.chance(10) ? "err" : "";
        if (m.service.starts_with("/mmi.") && m.service != "/mmi.echo") { // these interpret the data
            static const char *q[] = { "", "/a", "/dev", "/nope", "/mmi.echo", "a" };
            m.data = r.pick(q);
        }
        return m;
    }
    // what the broker itself answers, if it does
    std::optional<M> brokerReply(const M &m) {
        auto svc = serviceFor(m.service);
        M    e   = m;
        if (!svc) {
            e.cmd = zp::Final, e.topic = "/mmi.service", e.data = "", e.error = "unknown service (error 501): '" + m.service + "'", e.rbac = "RBAC=ADMIN,abcdef12345";
            return e;
        }
        if (*svc == "/mmi.echo") return e;
        if (*svc == "/mmi.service") {
            e.cmd = zp::Final;
            if (m.data.empty()) {
                std::string l;
                for (auto &[n, d] : services) l += (l.empty() ? "" : ",") + n;
                e.data = l;
            } else e.data = services.count(m.data) ? "200" : "404";
            return e;
        }
        if (*svc == "/mmi.openapi") {
            e.cmd = zp::Final;
            if (auto it = services.find(m.data); it != services.end()) e.data = it->second, e.error = "";
            else e.data = "", e.error = "Requested invalid service '" + m.data + "'";
            return e;
        }
        return {};
    }
    void opRequest(int ci) {
        std::string role;
        M           m = makeRequest(role);
        auto       &c = cl[ci];
        c.last        = nowMs();
        c.p.send(m);
        s.note("c" + num(ci) + " " + zp::cmdName(m.cmd) + " " + m.service + " as '" + role + "' " + m.data.substr(0, 10));
        h = vp::mix(h, vp::fnv(m.service) ^ priority(role));
        ctx().count("requests");
        if (auto e = brokerReply(m)) {
            c.expect.push_back(*e);
            return;
        }
        byToken[m.data] = int(rq.size());
        rq.push_back({ ci, step, m, *serviceFor(m.service), role, false, false, nowMs() });
    }
    void opRest() {
        std::vector<vprest::Msg> batch;
        int                      n = int(r.range(1, 4));
        for (int i = 0; i < n; ++i) {
            std::string role;
            M           m = makeRequest(role);
            m.error       = "";
            vprest::Msg x;
            try {
                x.topic = mdp::Message::URI(m.topic);
            } catch (...) { continue; }
            x.command         = static_cast<mdp::Command>(m.cmd);
            x.serviceName     = m.service;
            x.clientRequestID = IoBuffer(m.reqId.data(), m.reqId.size());
            x.data            = IoBuffer(m.data.data(), m.data.size());
            x.rbac            = IoBuffer(m.rbac.data(), m.rbac.size());
            batch.push_back(std::move(x));
            s.note("REST " + std::string(zp::cmdName(m.cmd)) + " " + m.service + " " + m.data.substr(0, 10));
            ctx().count("rest-requests");
            if (auto e = brokerReply(m)) {
                e->src = "rest";
                restExpect.push_back(*e);
            } else {
                byToken[m.data] = int(rq.size());
                rq.push_back({ -1, step, m, *serviceFor(m.service), role, false, false, nowMs() });
            }
        }
        vprest::port().inject.push_back(std::move(batch));
    }
    void reply(Wk &w, int i, char cmd) {
        auto &q = rq[w.req];
        M     m{ .src = {}, .proto = zp::W03, .service = deliveredId[w.req], .reqId = q.sent.reqId, .topic = r.chance(50) ? q.sent.topic : "/reply?n=" + num(r.below(9)), .data = token() + r.bytes(0, 30), .error = r.chance(20) ? "failed: x" : "", .rbac = r.chance(50) ? "RBAC=NONE," : r.bytes(0, 6), .cmd = cmd };
        w.p.send(m);
        s.note("w" + num(i) + " " + zp::cmdName(cmd) + " for " + q.sent.data.substr(0, 10));
        M e       = m;
        e.proto   = zp::C03;
        e.service = w.service;
        if (q.client < 0) {
            e.src = "rest";
            restExpect.push_back(e);
        } else if (auto &c = cl[q.client]; c.alive) {
            if (clientTimeout == 0 || nowMs() <= c.settled + clientTimeout) c.expect.push_back(e);
            else c.maybe.push_back(e);
        }
        if (cmd == zp::Final) {
            q.answered = true;
            w.req      = -1;
            w.last     = nowMs();
        } else w.partials++;
        ctx().count(cmd == zp::Final ? "final-replies" : "partial-replies");
    }
    std::map<int, std::string> deliveredId;

    void opHeartbeat(Wk &w, int i) {
        w.p.send(M{ .src = {}, .proto = zp::W03, .service = w.service, .reqId = {}, .topic = "/", .data = {}, .error = {}, .rbac = {}, .cmd = zp::Heartbeat });
        s.note("w" + num(i) + " heartbeat");
        if (live(w)) w.last = nowMs();
        else w.disconnectDue = true, w.known = false;
    }
    static bool same(const M &a, const M &b) { return a.proto == b.proto && a.cmd == b.cmd && a.service == b.service && a.reqId == b.reqId && a.topic == b.topic && a.data == b.data && a.error == b.error && a.rbac == b.rbac; }

    void collect(std::int64_t advanced) {
        ctx().eval();
        std::vector<int> freshlyDelivered;
        for (std::size_t i = 0; i < wk.size(); ++i) {
            auto &w  = wk[i];
            int   hb = 0;
            while (auto f = w.p.recv()) {
                auto m = M::from(*f);
                if (!m) { s.fail("worker-gets-malformed-message", num(f->size()) + " frames to a worker"); continue; }
                if (m->proto != zp::W03) s.fail("worker-protocol", "worker w" + num(i) + " got " + m->str());
                switch (m->cmd) {
                case zp::Heartbeat: hb++; break;
                case zp::Disconnect:
                    if (!w.disconnectDue) s.fail("worker-disconnected", "live worker w" + num(i) + " is told to disconnect");
                    w.disconnectDue = false;
                    break;
                case zp::Get:
                case zp::Set: {
                    auto it = byToken.find(m->data);
                    if (it == byToken.end()) { s.fail("request-invented", "w" + num(i) + " got a request nobody made: " + m->str()); break; }
                    auto &q = rq[it->second];
                    ctx().count("deliveries");
                    if (q.delivered) s.fail("request-delivered-twice", "w" + num(i) + " got again " + m->str());
                    if (q.service != w.service) s.fail("request-misrouted", "'" + q.sent.service + "' is for service '" + q.service + "' but went to a worker of '" + w.service + "'");
                    M e = q.sent;
                    e.proto = zp::W03, e.service = m->service;
                    if (!same(e, *m)) s.fail("request-altered", "sent " + q.sent.str() + " received " + m->str());
                    if (w.req >= 0) s.fail("worker-overcommitted", "w" + num(i) + " got " + m->data.substr(0, 10) + " while it works on " + rq[w.req].sent.data.substr(0, 10));
                    else if (!live(w)) s.fail("request-to-expired-worker", "w" + num(i) + " has been silent for " + num(std::uint64_t(nowMs() - w.last)) + " ms");
                    q.delivered             = true;
                    deliveredId[it->second] = m->service;
                    w.req                   = it->second;
                    w.partials              = 0;
                    freshlyDelivered.push_back(it->second);
                    break;
                }
                default: s.fail("worker-gets-unexpected", "w" + num(i) + " got " + m->str());
                }
            }
            if (advanced >= HB && live(w) && w.req < 0 && wasIdle.count(i) && hb == 0) s.fail("no-heartbeat", "idle worker w" + num(i) + " got no heartbeat within " + num(std::uint64_t(advanced)) + " ms");
            if (w.disconnectDue) { s.fail("no-disconnect", "w" + num(i) + " sent a heartbeat but is not known; it is not told to disconnect"); w.disconnectDue = false; }
        }
        for (int d : freshlyDelivered) {
            auto &q = rq[d];
            for (auto &o : rq) { // those that waited already when this step began
                if (o.delivered || o.service != q.service || o.step >= step) continue;
                if (priority(o.role) < priority(q.role)) s.fail("priority", "'" + q.role + "' served while '" + o.role + "' waits since an earlier step, service " + q.service);
                else if (priority(o.role) == priority(q.role) && o.step < q.step) s.fail("not-first-come-first-served", "a later request of role '" + q.role + "' overtakes an earlier one of '" + o.role + "', service " + q.service + ": " + q.sent.data.substr(0, 9) + " of step " + num(q.step) + ", " + o.sent.data.substr(0, 9) + " of step " + num(o.step) + ", now " + num(step));
            }
        }
        for (std::size_t i = 0; i < cl.size(); ++i) {
            auto &c = cl[i];
            if (!c.alive) continue;
            while (auto f = c.p.recv()) {
                auto m = M::from(*f);
                if (!m) { s.fail("client-gets-malformed-message", num(f->size()) + " frames to a client"); continue; }
                auto it = std::find_if(c.expect.begin(), c.expect.end(), [&](auto &e) { return same(e, *m); });
                if (it != c.expect.end()) { c.expect.erase(it); ctx().count("replies"); continue; }
                it = std::find_if(c.maybe.begin(), c.maybe.end(), [&](auto &e) { return same(e, *m); });
                if (it != c.maybe.end()) { c.maybe.erase(it); continue; }
                s.fail("unexpected-reply", "c" + num(i) + " got " + m->str() + (c.expect.empty() ? "" : " instead of " + c.expect.front().str()));
            }
            for (auto &e : c.expect) s.fail("reply-lost", "c" + num(i) + " did not get " + e.str());
            c.expect.clear();
        }
        for (auto &x : vprest::port().responses) {
            M m{ .src = x.sourceId, .proto = x.protocolName, .service = x.serviceName, .reqId = std::string(x.clientRequestID.asString()), .topic = x.topic.str(), .data = std::string(x.data.asString()), .error = x.error, .rbac = std::string(x.rbac.asString()), .cmd = char(x.command) };
            auto it = std::find_if(restExpect.begin(), restExpect.end(), [&](auto &e) { return same(e, m); });
            if (it == restExpect.end()) s.fail("unexpected-rest-reply", m.str() + (restExpect.empty() ? "" : " instead of " + restExpect.front().str()));
            else restExpect.erase(it), ctx().count("rest-replies");
        }
        vprest::port().responses.clear();
        for (auto &e : restExpect) s.fail("rest-reply-lost", e.str());
        restExpect.clear();
        // nothing may wait while there is somebody to serve it
        for (auto &q : rq)
            if (!q.delivered)
                for (std::size_t i = 0; i < wk.size(); ++i)
                    if (wk[i].service == q.service && wk[i].req < 0 && live(wk[i])) {
                        s.fail("request-stuck", "request " + q.sent.data.substr(0, 10) + " for " + q.service + " waits although w" + num(i) + " is idle");
                        q.delivered = true;
                        break;
                    }
        for (auto &c : cl) c.settled = c.last;
        wasIdle.clear();
        for (std::size_t i = 0; i < wk.size(); ++i)
            if (live(wk[i]) && wk[i].req < 0) wasIdle.insert(i);
        for (auto &w : wk)
            if (!live(w)) w.known = false;
    }
    std::set<std::size_t> wasIdle;

    void foe(); // Q04

    void run(int steps) {
        for (int i = 0, n = int(r.range(1, 4)); i < n; ++i) {
            cl.emplace_back();
            cl.back().p = s.dealer();
        }
        for (step = 0; step < steps && !ctx().anyViolation(); ++step) {
            std::int64_t adv = 0;
            if (step == 0 || r.chance(12)) opReady();
            else if (r.chance(25)) {
                adv = r.pick(std::vector<int>{ 1, 300, 999, 1000, 1001, 1500, 2999 });
                // workers that are not mute keep their heartbeats up
                for (std::size_t i = 0; i < wk.size(); ++i)
                    if (!wk[i].mute && live(wk[i]) && nowMs() + adv > wk[i].last + EXPIRY - 1) opHeartbeat(wk[i], int(i));
                s.drain();
                collect(0);
                advance(adv);
                s.note("+" + num(std::uint64_t(adv)) + "ms");
            } else {
                for (int k = 0, n = int(r.range(1, 5)); k < n; ++k) {
                    int ci = int(r.below(cl.size())), wi = wk.empty() ? -1 : int(r.below(wk.size()));
                    switch (r.below(hostile ? 13 : 10)) {
                    case 0: case 1: case 2: if (cl[ci].alive) opRequest(ci); break;
                    case 3: case 4: case 5: if (wi >= 0 && wk[wi].req >= 0 && !wk[wi].mute) reply(wk[wi], wi, zp::Final); break;
                    case 6: if (wi >= 0 && wk[wi].req >= 0 && !wk[wi].mute && wk[wi].partials < 3 && rq[wk[wi].req].client >= 0) reply(wk[wi], wi, zp::Partial); break;
                    case 7: if (wi >= 0 && !wk[wi].mute) { if (live(wk[wi]) || wk[wi].req < 0) opHeartbeat(wk[wi], wi); if (!wk[wi].known) { k = n; } } break;
                    case 8:
                        if (rest) opRest();
                        break;
                    case 9:
                        if (wi >= 0 && r.chance(15)) wk[wi].mute = true, s.note("w" + num(wi) + " falls silent");
                        else if (wi >= 0 && k == 0 && r.chance(60)) opReadyAgain(wk[wi], wi), k = n; // alone: a worker that has just been given a request may not do so
                        else if (r.chance(20)) {
                            cl[ci].p.close();
                            cl[ci].alive = false;
                            s.note("c" + num(ci) + " leaves");
                            cl.emplace_back();
                            cl.back().p = s.dealer();
                            k = n;
                        }
                        break;
                    default: foe();
                    }
                }
            }
            if (!s.drain()) return;
            collect(adv);
            h = vp::mix(h, wk.size() * 31 + rq.size());
        }
        if (ctx().anyViolation()) return;
        // at the end everybody gets an answer
        for (int round = 0; round < 200; ++round) {
            bool any = false;
            for (std::size_t i = 0; i < wk.size(); ++i)
                if (wk[i].req >= 0 && !wk[i].mute) { reply(wk[i], int(i), zp::Final); any = true; }
            if (!any) break;
            if (!s.drain()) return;
            step++;
            collect(0);
        }
        s.b.cleanup();
        for (std::size_t i = 0; i < wk.size(); ++i) {
            int n = 0;
            while (auto f = wk[i].p.recv())
                if (auto m = M::from(*f); m && m->cmd == zp::Disconnect) n++;
            if (wk[i].known && n != 1) s.fail("shutdown", "at shutdown w" + num(i) + " was told to disconnect " + num(n) + " times");
        }
        if (vpzmq::misuse) s.fail("zmq-misuse", vpzmq::lastMisuse);
        ctx().distinct(h);
    }
};

void Hist::foe() {
    if (foes.empty() || r.chance(20)) foes.push_back(s.dealer());
    auto      &p = foes[r.below(foes.size())];
    static const char *topics[] = { "/", "", "http://[", "a b", "/x\x01", "/%zz", "http://host:99999/x", "//", ":", "/ok?x=1", "/mmi.service", "\xff\xfe", "?", "#", "http://u:p@h:x/" };
    static const char *svcs[]   = { "", "/", "/a", "/dev", "no slash", "/mmi.echo", "/mmi.dns", "/mmi.openapi", "/hostile", "//", "/a/", "\x01" };
    static const char *protos[] = { "MDPC03", "MDPW03", "MDPC01", "", "mdpw03", "MDPW03X" };
    static const char *dns[]    = { "http://[", "mdp://h:x,/a", ":,/", ",,,", "/a b/", "a:b:c://d", "inproc://x/%zz", "http://host:99999/", "/mmi.dns", "\xff:/\xfe" };
    std::string d;
    zp::Frames  f;
    if (r.chance(25)) { // not a message at all
        int n = int(r.below(14));
        for (int i = 0; i < n + 1; ++i) f.push_back(r.chance(30) ? "" : r.bytes(0, 12));
        d = num(f.size()) + " random frames";
    } else {
        M m;
        m.proto   = r.pick(protos);
        if (r.chance(60)) m.proto = r.chance(50) ? zp::C03 : zp::W03;
        m.cmd     = char(r.chance(90) ? r.below(11) : r.below(256));
        m.service = r.pick(svcs);
        m.topic   = r.pick(topics);
        m.reqId   = r.bytes(0, 5);
        m.data    = r.chance(40) ? r.pick(dns) : r.bytes(0, 10);
        if (m.data.starts_with("tok")) m.data = "";
        m.error = r.chance(30) ? r.bytes(0, 5) : "";
        m.rbac  = r.bytes(0, 12);
        // a peer that properly registers as a worker of somebody else's service is a worker, not an attack that can be repelled
        if (m.proto == zp::W03 && (m.cmd == zp::Ready)) m.service = r.chance(50) ? "" : r.chance(50) ? "/mmi.echo" : "no slash";
        if (m.proto == zp::C03 && (m.cmd == zp::Get || m.cmd == zp::Set) && m.service.starts_with("/") && services.count(m.service) && !m.service.starts_with("/mmi.")) m.service = "/mmi.dns";
        if (m.proto == zp::C03 && (m.cmd == zp::Get || m.cmd == zp::Set))
            if (auto svc = serviceFor(m.service); svc && !svc->starts_with("/mmi.")) m.service = "/mmi.dns";
        f = m.frames();
        if (r.chance(5)) f[1] = r.chance(30) ? "" : r.bytes(2, 3);
        d = m.str();
    }
    p.send(f);
    s.note("FOE " + vp::esc(d, 200));
    ctx().count("hostile-messages");
    while (p.recv()) {}
}

static void q02(vp::Ctx &c, bool hostile) {
    const auto n = vp::scaled(hostile ? 700 : 700);
    for (std::uint64_t i = 0; i < n && !c.anyViolation(); ++i) {
        vp::Rng r(c.rng.next());
        Hist    h(r, r.chance(30) ? 0 : r.chance(50) ? 10000 : 2500);
        h.hostile = hostile;
        h.run(int(r.range(20, 120)));
        if (i < 3) c.sample(h.s.trace.substr(0, 200));
    }
}

// ---------------------------------------------------------------- Q03 notifications
struct Tp { // a topic, independent of the library
    std::string                        service;
    std::map<std::string, std::string> par;
    std::string zmq() const { // as on SUB sockets
        std::string t = service;
        char        sep = '?';
        for (auto &[k, v] : par) t += sep + k + "=" + enc(v), sep = '&';
        return t + "#";
    }
    std::string mdp(vp::Rng &r) const { // parameters in any order
        std::vector<std::string> p;
        for (auto &[k, v] : par) p.push_back(k + "=" + enc(v));
        for (std::size_t i = p.size(); i > 1; --i) std::swap(p[i - 1], p[r.below(i)]);
        std::string t = service;
        for (std::size_t i = 0; i < p.size(); ++i) t += (i ? "&" : "?") + p[i];
        return t;
    }
    static std::string enc(const std::string &s) {
        std::string o;
        char        b[4];
        for (unsigned char c : s)
            if (std::isalnum(c) || c == '-' || c == '_' || c == '.' || c == '~') o += char(c);
            else std::snprintf(b, sizeof b, "%%%02X", c), o += b;
        return o;
    }
    auto operator<=>(const Tp &) const = default;
};
static bool matches(const Tp &n, const Tp &t) {
    if (n.service != t.service) return false;
    for (auto &[k, v] : t.par) {
        if (k == "u") continue; // no filter
        auto it = n.par.find(k);
        if (it == n.par.end() || it->second != v) return false; // values are canonical
    }
    return true;
}
static Tp genTp(vp::Rng &r, bool notification) {
    static const char *sv[] = { "/a", "/a/b", "/dev", "/ab" };
    Tp t;
    t.service = r.pick(sv);
    if (r.chance(notification ? 75 : 45)) t.par["n"] = num(r.below(3));
    if (r.chance(notification ? 60 : 30)) t.par["contentType"] = r.chance(50) ? "text/html" : "application/json";
    if (r.chance(20)) t.par["u"] = r.chance(50) ? "x y" : "&=#";
    return t;
}
static void q03(vp::Ctx &c) {
    vp::Rng r(c.rng.next());
    Sys     s(0);
    auto   &b = s.b;
    b.addFilter<NumberFilter<std::int64_t>>("n");
    b.addFilter<ContentTypeFilter>("contentType");
    const bool rest = r.chance(60);
    if (rest) {
        opencmw::majordomo::rest::Settings rs;
        std::ignore = b.bindRest(rs);
    }
    vprest::port() = {};
    struct Sub {
        Peer                           p;
        int                            kind; // 0 DEALER, 1 SUB
        bool                           alive = true;
        std::map<Tp, int>              subs; // SUB sockets count
        std::deque<std::pair<Tp, M>>   got;
        std::vector<std::pair<Tp, M>>  due; // (topic subscribed to, message)
    };
    struct Work {
        Peer                  p, x; // DEALER, XPUB
        std::string           service;
        std::set<std::string> up; // what it believes is subscribed to
        std::int64_t          last = 0;
        bool                  known = true, disconnectDue = false;
    };
    std::vector<Sub>              subs;
    std::vector<Work>             wk;
    std::set<Tp>                  restSubs, stale; // stale: the only subscribers left without saying so
    std::vector<std::pair<Tp, M>> restDue;
    std::vector<Tp>               pool;
    std::uint64_t                 h = 17;
    for (int i = 0; i < 6; ++i) pool.push_back(genTp(r, false));
    if (r.chance(50)) pool.push_back(Tp{ pool[0].service, {} });
    auto addWorker = [&] {
        Work w;
        w.p = s.dealer();
        w.x = Peer(s.z(), ZMQ_XPUB, INTERNAL_ADDRESS_SUBSCRIBE.str().data());
        static const char *sv[] = { "/a", "/a/b", "/dev", "/ab" };
        w.service = r.pick(sv);
        w.last    = nowMs();
        w.p.send(M{ .src = {}, .proto = zp::W03, .service = w.service, .reqId = {}, .topic = "/", .data = "d", .error = {}, .rbac = {}, .cmd = zp::Ready });
        s.note("w" + num(wk.size()) + " READY " + w.service);
        wk.push_back(std::move(w));
    };
    auto active = [&] {
        std::set<Tp> a = restSubs;
        for (auto &x : subs)
            if (x.alive)
                for (auto &[t, n] : x.subs) a.insert(t);
        return a;
    };
    auto settle = [&] {
        if (!s.drain()) return;
        ctx().eval();
        for (std::size_t i = 0; i < subs.size(); ++i) {
            auto &x = subs[i];
            if (!x.alive) continue;
            // per topic the notifications arrive in the order they were sent
            while (auto f = x.p.recv()) {
                auto m = M::from(*f, x.kind == 1);
                if (!m) { s.fail("malformed-notification", num(f->size()) + " frames"); continue; }
                auto it = std::find_if(x.due.begin(), x.due.end(), [&](auto &d) {
                    auto &e = d.second;
                    return (x.kind == 0 || m->src == d.first.zmq()) && e.proto == m->proto && e.cmd == m->cmd && e.service == m->service && e.reqId == m->reqId && e.topic == m->topic && e.data == m->data && e.error == m->error && e.rbac == m->rbac;
                });
                if (it == x.due.end()) { s.fail("unexpected-notification", std::string(x.kind ? "SUB" : "DEALER") + " s" + num(i) + " got " + m->str() + (x.due.empty() ? "" : " instead of " + x.due.front().second.str())); continue; }
                ctx().count("notifications-delivered");
                for (auto j = x.due.begin(); j != it; ++j)
                    if (j->first == it->first && j->second.src == it->second.src) { s.fail("notifications-reordered", "s" + num(i) + " got '" + it->second.data.substr(0, 9) + "' before '" + j->second.data.substr(0, 9) + "' for " + it->first.zmq()); break; }
                x.due.erase(it);
            }
            for (auto &d : x.due) s.fail("notification-lost", std::string(x.kind ? "SUB" : "DEALER") + " s" + num(i) + " subscribed to " + d.first.zmq() + " did not get " + d.second.str());
            x.due.clear();
        }
        for (auto &[t, x] : vprest::port().notifications) {
            auto it = std::find_if(restDue.begin(), restDue.end(), [&, tt = &t, xx = &x](auto &d) { return tt->toZmqTopic() == d.first.zmq() && xx->data.asString() == d.second.data && xx->topic.str() == d.second.topic && xx->error == d.second.error && xx->serviceName == d.second.service; });
            if (it == restDue.end()) s.fail("unexpected-rest-notification", t.toZmqTopic() + " " + x.topic.str());
            else restDue.erase(it), ctx().count("rest-notifications");
        }
        vprest::port().notifications.clear();
        for (auto &d : restDue) s.fail("rest-notification-lost", d.first.zmq() + " " + d.second.str());
        restDue.clear();
        // the workers know what is subscribed to
        std::set<std::string> want, dontCare;
        for (auto &t : active()) want.insert(t.zmq());
        for (auto &t : stale)
            if (!want.count(t.zmq())) dontCare.insert(t.zmq());
        for (std::size_t i = 0; i < wk.size(); ++i) {
            auto &w = wk[i];
            while (auto f = w.x.recv()) {
                const auto &m = (*f)[0];
                if (m.empty()) continue;
                if (m[0] == 1) w.up.insert(m.substr(1));
                else w.up.erase(m.substr(1));
                ctx().count("upstream-changes");
            }
            for (auto &t : want) if (!w.up.count(t)) s.fail("subscription-not-passed-on", "w" + num(i) + " does not know of a subscription to " + t);
            for (auto &t : w.up) if (!want.count(t) && !dontCare.count(t)) s.fail("subscription-never-ends", "w" + num(i) + " is still told that somebody is subscribed to " + t);
            while (auto f = w.p.recv()) {
                auto m = M::from(*f);
                if (m && m->cmd == zp::Disconnect) {
                    if (!w.disconnectDue) s.fail("worker-disconnected", "w" + num(i));
                    w.disconnectDue = false, w.known = false;
                }
            }
            if (w.disconnectDue) s.fail("no-disconnect", "w" + num(i) + " was dropped and not told so when it sent a notification"), w.disconnectDue = false;
        }
    };
    s.drain();
    addWorker();
    settle();
    for (int step = 0, steps = int(r.range(15, 70)); step < steps && !c.anyViolation(); ++step) {
        const auto op = r.below(100);
        h             = vp::mix(h, op);
        if (op < 8) addWorker();
        else if (op < 16 || subs.empty()) {
            Sub x;
            x.kind = r.chance(50);
            x.p    = x.kind ? Peer(s.z(), ZMQ_SUB, INTERNAL_ADDRESS_PUBLISHER.str().data()) : s.dealer();
            s.note(std::string("s") + num(subs.size()) + (x.kind ? " SUB" : " DEALER"));
            subs.push_back(std::move(x));
        } else if (op < 50) { // subscription change
            const bool add = r.chance(60);
            const auto t   = r.pick(pool);
            h              = vp::mix(h, vp::fnv(t.zmq()));
            if (rest && r.chance(12)) {
                if (!add) continue; // the REST server never does
                std::vector<vprest::Msg> batch(1);
                batch[0].command = mdp::Command::Subscribe;
                batch[0].topic   = mdp::Message::URI(t.mdp(r));
                vprest::port().inject.push_back(std::move(batch));
                restSubs.insert(t);
                s.note("REST subscribes " + t.zmq());
            } else {
                auto &x = subs[r.below(subs.size())];
                if (!x.alive) continue;
                s.note("s" + num(std::uint64_t(&x - subs.data())) + (add ? " + " : " - ") + t.zmq());
                if (x.kind == 0) {
                    x.p.send(M{ .src = {}, .proto = zp::C03, .service = t.service, .reqId = "r", .topic = t.mdp(r), .data = {}, .error = {}, .rbac = {}, .cmd = add ? zp::Subscribe : zp::Unsubscribe });
                    if (add) x.subs[t] = 1;
                    else x.subs.erase(t);
                } else {
                    auto z = t.zmq();
                    zmq_setsockopt(x.p.s, add ? ZMQ_SUBSCRIBE : ZMQ_UNSUBSCRIBE, z.data(), z.size());
                    if (add) x.subs[t]++;
                    else if (x.subs.count(t) && --x.subs[t] == 0) x.subs.erase(t);
                }
                ctx().count("subscription-changes");
            }
        } else if (op < 54) {
            auto &x = subs[r.below(subs.size())];
            if (!x.alive) continue;
            s.note("s" + num(std::uint64_t(&x - subs.data())) + " leaves");
            if (x.kind == 0)
                for (auto &[t, n] : x.subs) stale.insert(t);
            x.p.close();
            x.alive = false;
        } else if (op < 58) { // malformed topics
            auto p = s.dealer();
            static const char *bad[] = { "/", "", "/a b", "?x", "/a/", "//", "/a$b" };
            for (int k = 0; k < 3; ++k) p.send(M{ .src = {}, .proto = zp::C03, .service = {}, .reqId = {}, .topic = r.pick(bad), .data = {}, .error = {}, .rbac = {}, .cmd = r.chance(50) ? zp::Subscribe : zp::Unsubscribe });
            if (!s.drain()) return;
            p.close();
            stale.insert(Tp{ "/a", {} });
            s.note("malformed subscriptions");
        } else if (op < 62) { // a worker is forgotten
            for (auto &w : wk) w.p.send(M{ .src = {}, .proto = zp::W03, .service = w.service, .reqId = {}, .topic = "/", .data = {}, .error = {}, .rbac = {}, .cmd = zp::Heartbeat });
            for (auto &w : wk) if (!w.known) w.disconnectDue = true; else w.last = nowMs();
            settle();
            const bool drop = r.chance(40);
            advance(drop ? 3500 : 1500);
            s.note(drop ? "+3500ms" : "+1500ms");
            if (drop) for (auto &w : wk) w.known = false;
        } else if (!wk.empty()) { // notifications
            const auto act = active();
            for (int k = 0, n = int(r.range(1, 5)); k < n; ++k) {
                const auto wi = r.below(wk.size());
                auto      &w  = wk[wi];
                Tp         t  = genTp(r, true);
                if (r.chance(70)) t.service = w.service;
                if (r.chance(40) && !act.empty()) { t = r.pick(std::vector<Tp>(act.begin(), act.end())); }
                static std::uint64_t serial = 0;
                M m{ .src = {}, .proto = zp::W03, .service = w.service, .reqId = num(++serial), .topic = t.mdp(r), .data = token() + r.bytes(0, 20), .error = r.chance(10) ? "e" : "", .rbac = "RBAC=NONE,", .cmd = zp::Notify };
                if (r.chance(4)) { m.topic = r.chance(50) ? "/" : "/a$"; t.service = "nothing"; }
                w.p.send(m);
                ctx().count("notifications-sent");
                s.note("w" + num(wi) + " notifies " + m.topic + " " + m.data.substr(0, 9));
                if (!w.known && m.topic != "/a$") w.disconnectDue = true; // an invalid message does not count
                M e   = m;
                e.proto = zp::C03, e.cmd = zp::Final, e.src = num(wi);
                for (auto &a : act) {
                    if (!matches(t, a)) continue;
                    for (auto &x : subs)
                        if (x.alive && x.subs.count(a)) x.due.emplace_back(a, e);
                    if (restSubs.count(a)) restDue.emplace_back(a, e);
                }
                if (w.disconnectDue) break; // it stops talking
            }
        }
        settle();
    }
    if (vpzmq::misuse) s.fail("zmq-misuse", vpzmq::lastMisuse);
    ctx().distinct(h);
}

void vp_main(vp::Ctx &c) {
    if (c.mode == "q03") {
        for (std::uint64_t i = 0, n = vp::scaled(2500); i < n && !c.anyViolation(); ++i) q03(c);
        return;
    }
    if (c.mode == "q02") q02(c, false);
    else if (c.mode == "q04") q02(c, true);
}
