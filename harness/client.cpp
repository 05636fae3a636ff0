// K01: requests of a client, K02: its subscriptions, K03: requests that cannot be made and servers that misbehave.
// The servers are raw sockets, frame by frame.
#include <cassert>
#include <deque>
#include <iostream>
#include <print>
#include <set>
#include <sstream>
#include "zpeer.hpp"
#include <Client.hpp>
#include <ClientContext.hpp>

using vp::ctx;
using namespace opencmw;
using namespace std::chrono_literals;
using client::ClientContext;
using client::MDClientCtx;
using zp::Frames;
using zp::M;
using zp::Peer;

static std::string text(const IoBuffer &b) { return { reinterpret_cast<const char *>(b.data()), b.size() }; }
template<typename F>
static bool eventually(F &&f, int ms = 20000) {
    const auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds(ms);
    while (!f()) {
        if (std::chrono::steady_clock::now() > end) return false;
        std::this_thread::sleep_for(300us);
    }
    return true;
}
static std::string genData(vp::Rng &r) {
    switch (r.below(5)) {
    case 0: return "";
    case 1: return r.bytes(200, 3000);
    default: return r.bytes(0, 30);
    }
}
// parameters have no order
static std::string canon(const std::string &topic) {
    const auto             q = topic.find('?');
    std::set<std::string>  ps;
    std::string            out = topic.substr(0, q), part;
    if (q != std::string::npos) for (std::istringstream is(topic.substr(q + 1)); std::getline(is, part, '&');) ps.insert(part);
    for (auto &x : ps) out += "?" + x;
    return out;
}
struct Got { std::string data, error, topic, service, rbac; bool final = false; };
static Got got(const mdp::Message &m) { return { text(m.data), m.error, std::string(m.topic.str()), m.serviceName, text(m.rbac), m.command == mdp::Command::Final }; }

// a server that answers requests, late, out of order, and sometimes with more than the answer
struct Server {
    Peer                     router;
    vp::Rng                  r;
    bool                     nasty;
    std::deque<M>            waiting;
    std::vector<M>           seen, answered; // all requests; all proper answers
    std::mutex               m;
    Server(zmq::Context &c, const std::string &name, std::uint64_t seed, bool isNasty) : router(c.zmq_ptr, ZMQ_ROUTER, ("inproc://" + name).c_str(), true), r(seed), nasty(isNasty) {}
    void step() {
        while (auto f = router.recv()) {
            auto q = M::from(*f, true);
            VP_CHECK(q && q->proto == zp::C03, "malformed-request", q ? q->str() : "frames: " + std::to_string(f->size()));
            if (!q) continue;
            std::scoped_lock l(m);
            seen.push_back(*q);
            if (q->cmd == zp::Get || q->cmd == zp::Set) waiting.push_back(*q);
        }
        if (nasty && !seen.empty() && r.chance(10)) noise(seen[r.below(seen.size())]);
        for (int n = int(r.below(4)); n > 0 && !waiting.empty(); n--) {
            const auto k = r.below(waiting.size());
            M          q = waiting[k];
            waiting.erase(waiting.begin() + long(k));
            M a = q;
            a.cmd = zp::Final, a.data = "re:" + q.data + q.topic, a.rbac = "R" + q.reqId, a.error = r.chance(10) ? "failed " + q.reqId : "";
            if (nasty && r.chance(15)) { M p = a; p.cmd = zp::Partial, p.data = "partial"; router.send(p.frames(true)); }
            { std::scoped_lock l(m); answered.push_back(a); }
            router.send(a.frames(true));
            if (nasty && r.chance(15)) { M d = a; d.data = "again"; router.send(d.frames(true)); } // a second answer
        }
    }
    void noise(const M &to) {
        M x = to;
        x.cmd = zp::Final, x.data = "noise";
        Frames f;
        switch (r.below(7)) {
        case 0: x.reqId = "99999999"; f = x.frames(true); break;
        case 1: x.reqId = r.bytes(0, 6); if (!x.reqId.empty() && isdigit(x.reqId[0])) x.reqId[0] = 'x'; f = x.frames(true); break;
        case 2: x.reqId = "99999999999999999999999999"; f = x.frames(true); break;
        case 3: x.cmd = char(r.pick(std::vector<int>{ zp::Ready, zp::Heartbeat, zp::Disconnect, zp::Subscribe, zp::Invalid })); f = x.frames(true); break;
        case 4: f = { to.src, "one" }; break;
        case 5: f = x.frames(true); f.push_back("more"); f[4] = "99999999"; break;
        default: f = x.frames(true); f[4] = "77777777"; f.resize(std::size_t(r.range(2, 8))); break;
        }
        router.send(f);
        ctx().count("misbehaviour of servers");
    }
};

struct World {
    zmq::Context                             context;
    std::vector<std::unique_ptr<Server>>     servers;
    std::atomic<bool>                        over{ false };
    std::thread                              loop;
    World(vp::Rng &r, bool nasty) {
        for (auto n : { "srvA", "srvB" }) servers.push_back(std::make_unique<Server>(context, n, r.next(), nasty));
        loop = std::thread([this, q = vp::Rng(r.next())]() mutable {
            while (!over) {
                for (auto &s : servers) s->step();
                if (q.chance(50)) std::this_thread::sleep_for(std::chrono::microseconds(q.below(300)));
            }
        });
    }
    ~World() { over = true; if (loop.joinable()) loop.join(); }
};
static std::unique_ptr<ClientContext> makeClient(zmq::Context &c) {
    std::vector<std::unique_ptr<client::ClientBase>> v;
    v.push_back(std::make_unique<MDClientCtx>(c, 20ms, "vp"));
    return std::make_unique<ClientContext>(std::move(v));
}

struct Ask { // one request of a user and what came back
    bool                     set;
    int                      server;
    std::string              uri, topic, data; // what the server has to see
    std::mutex               m;
    std::vector<Got>         back;
};
static std::unique_ptr<Ask> genAsk(vp::Rng &r, int token) {
    auto a    = std::make_unique<Ask>();
    a->set    = r.chance(50), a->server = int(r.below(2));
    a->topic  = "/svc" + std::to_string(r.below(3)) + (r.chance(30) ? "/sub.x" : "") + "?tok=" + std::to_string(token) + (r.chance(30) ? "&z=1" : "");
    a->uri    = std::string("mdp://") + (a->server ? "srvB" : "srvA") + a->topic;
    if (a->set) a->data = genData(r);
    return a;
}
static void issue(ClientContext &c, Ask *a) {
    auto cb = [a](const mdp::Message &m) { std::scoped_lock l(a->m); a->back.push_back(got(m)); };
    if (a->set) c.set(URI<STRICT>(a->uri), cb, IoBuffer(a->data.data(), a->data.size()));
    else c.get(URI<STRICT>(a->uri), cb);
}
static bool isBack(Ask &a) { std::scoped_lock l(a.m); return !a.back.empty(); }
static void verify(World &w, Ask &a, bool burst) {
    std::scoped_lock l(a.m);
    VP_CHECK(a.back.size() == 1, a.back.empty() ? "request-not-answered" : "callback-called-again", a.uri + " " + std::to_string(a.back.size()) + " times");
    if (a.back.size() != 1) return;
    auto            &s = *w.servers[std::size_t(a.server)];
    std::scoped_lock k(s.m);
    std::vector<M>   q;
    for (auto &x : s.seen) if (canon(x.topic) == canon(a.topic)) q.push_back(x);
    auto &b = a.back[0];
    if (q.empty() && burst) { // could not be queued: the user is told
        VP_CHECK(!b.error.empty() && b.data.empty(), "request-lost-silently", a.uri);
        ctx().count("requests refused");
        return;
    }
    VP_CHECK(q.size() == 1 && q[0].cmd == (a.set ? zp::Set : zp::Get) && q[0].data == a.data && q[0].service == a.topic.substr(0, a.topic.find('?')), "request-altered", a.uri + (q.empty() ? " never arrived" : " " + q[0].str()));
    if (q.size() != 1) return;
    for (auto &x : s.answered)
        if (canon(x.topic) == canon(a.topic)) {
            VP_CHECK(b.final && b.data == x.data && b.error == x.error && b.topic == x.topic && b.rbac == x.rbac && b.service == x.service, "wrong-answer", a.uri + " got '" + b.data + "' error '" + b.error + "' topic '" + b.topic + "'");
            ctx().count("requests answered");
            return;
        }
    VP_CHECK(false, "answer-out-of-thin-air", a.uri + " '" + b.data + "' '" + b.error + "'");
}

static void requests(vp::Rng &r, bool nasty) {
    World                             w(r, nasty);
    auto                              c = makeClient(w.context);
    const int                         threads = int(r.range(1, 4)), per = int(r.range(1, 20));
    const bool                        burst   = r.chance(40);
    std::vector<std::unique_ptr<Ask>> asks;
    for (int i = 0; i < threads * per; i++) asks.push_back(genAsk(r, i));
    std::vector<std::thread> ts;
    std::atomic<int>         open{ 0 };
    for (int t = 0; t < threads; t++)
        ts.emplace_back([&, t, q = vp::Rng(r.next())]() mutable {
            for (int i = 0; i < per; i++) {
                auto *a = asks[std::size_t(t * per + i)].get();
                if (!burst) eventually([&] { int n = 0; for (auto &x : w.servers) { std::scoped_lock l(x->m); n += int(x->seen.size()); } return open.load() - n < 20; });
                open++;
                issue(*c, a);
                if (q.chance(30)) std::this_thread::sleep_for(std::chrono::microseconds(q.below(2000)));
            }
        });
    for (auto &t : ts) t.join();
    for (auto &a : asks) { if (!eventually([&] { return isBack(*a); })) { ctx().crumb("waiting", a->uri); break; } }
    std::this_thread::sleep_for(3ms);
    if (r.chance(50)) c->stop();
    c.reset();
    w.over = true;
    w.loop.join();
    std::uint64_t h = vp::mix(std::uint64_t(threads), std::uint64_t(burst));
    for (auto &a : asks) { verify(w, *a, burst); h = vp::mix(h, vp::fnv(a->uri)); }
    ctx().distinct(h);
}
static void k01(vp::Ctx &c) {
    const int rounds = std::getenv("VP_LIGHT") ? 150 : 400;
    for (std::uint64_t i = 0; i < vp::scaled(rounds / c.shards) && !c.anyViolation(); i++) {
        vp::Rng r(c.seed * 7001 + i * 13 + std::uint64_t(c.shard) * 100003);
        requests(r, false);
    }
}

// ---------------------------------------------------------------------------------------------- K02
struct Sub { // one subscription of a user: from subscribe() to unsubscribe()
    int              pub;
    std::string      topic;
    std::mutex       m;
    std::vector<Got> notes;
    std::vector<M>   due; // published while certainly subscribed
    bool             active = true;
};
static M note(vp::Rng &r, const std::string &topic, int seq) {
    M m;
    m.proto = zp::C03, m.cmd = zp::Notify, m.service = topic.substr(0, topic.find('?')), m.topic = topic, m.data = std::to_string(seq) + ":" + genData(r), m.rbac = "RB", m.src = topic + "#";
    m.reqId = r.chance(30) ? std::to_string(r.below(5)) : "";
    if (r.chance(10)) m.error = "e" + std::to_string(seq);
    return m;
}
static void subscriptions(vp::Rng &r) {
    World             w(r, false);
    std::vector<Peer> pubs;
    for (auto n : { "pubP", "pubQ" }) pubs.emplace_back(w.context.zmq_ptr, ZMQ_XPUB, (std::string("inproc://") + n).c_str(), true);
    std::vector<std::set<std::string>> at(2); // what the publishers know of
    auto pump = [&] {
        for (std::size_t p = 0; p < 2; p++)
            while (auto f = pubs[p].recv()) {
                if (f->size() != 1 || (*f)[0].empty()) continue;
                if ((*f)[0][0] == 1) at[p].insert((*f)[0].substr(1));
                else at[p].erase((*f)[0].substr(1));
            }
    };
    auto                              c = makeClient(w.context);
    std::vector<std::unique_ptr<Sub>> subs;
    std::vector<std::unique_ptr<Ask>> asks;
    static const std::vector<std::string> topics{ "/t", "/t?a=1", "/t?a=1&b=2", "/u/v", "/u/v?x", "/t2" };
    auto uri = [&](int p, const std::string &t) { return URI<STRICT>(std::string("mds://") + (p ? "pubQ" : "pubP") + t); };
    int  seq = 0, token = 0;
    std::uint64_t h = 1;
    bool          ok = true;
    for (int step = int(r.range(4, 25)); ok && step > 0; step--) {
        const int act = int(r.below(10));
        if (act < 3) {
            const int  p = int(r.below(2));
            const auto t = r.pick(topics);
            if (std::any_of(subs.begin(), subs.end(), [&](auto &s) { return s->active && s->pub == p && s->topic == t; })) continue;
            auto s = std::make_unique<Sub>();
            s->pub = p, s->topic = t;
            c->subscribe(uri(p, t), [x = s.get()](const mdp::Message &m) { std::scoped_lock l(x->m); x->notes.push_back(got(m)); });
            ok = eventually([&] { pump(); return at[std::size_t(p)].count(t + "#") > 0; });
            VP_CHECK(ok, "subscription-not-made", uri(p, t).str().data());
            subs.push_back(std::move(s));
            h = vp::mix(h, vp::fnv(t) + std::uint64_t(p));
        } else if (act < 5) {
            for (auto &s : subs)
                if (s->active && r.chance(40)) {
                    c->unsubscribe(uri(s->pub, s->topic));
                    ok = eventually([&] { pump(); return at[std::size_t(s->pub)].count(s->topic + "#") == 0; });
                    VP_CHECK(ok, "subscription-not-ended", s->topic);
                    s->active = false;
                    h         = vp::mix(h, 77);
                    // what was published before has been handed over before the user goes on
                    break;
                }
        } else if (act < 8) {
            for (int n = int(r.range(1, 8)); n > 0; n--) {
                int       p = int(r.below(2));
                M         m = note(r, r.pick(topics), seq++);
                if (!subs.empty() && r.chance(70)) { auto &s = *subs[r.below(subs.size())]; m = note(r, s.topic, seq), p = s.pub; }
                for (auto &s : subs) if (s->active && s->pub == p && s->topic == m.topic) s->due.push_back(m);
                if (r.chance(8)) { M x = m; x.cmd = char(r.pick(std::vector<int>{ zp::Heartbeat, zp::Ready, zp::Get })); x.data = "not for users"; pubs[std::size_t(p)].send(x.frames(true)); } // nothing a subscriber should see
                pubs[std::size_t(p)].send(m.frames(true));
            }
            h = vp::mix(h, std::uint64_t(seq));
            ok = eventually([&] { for (auto &s : subs) { std::scoped_lock l(s->m); if (s->active && s->notes.size() < s->due.size()) return false; } return true; });
            VP_CHECK(ok, "notification-lost", [&] { std::string d; for (auto &s : subs) { std::scoped_lock l(s->m); d += s->topic + (s->active ? "" : " ended") + " at " + std::to_string(s->pub) + ": " + std::to_string(s->notes.size()) + " of " + std::to_string(s->due.size()) + "; "; } return d; }());
        } else { // requests in between
            for (int n = int(r.range(1, 5)); n > 0; n--) { asks.push_back(genAsk(r, token++)); issue(*c, asks.back().get()); }
            if (r.chance(50)) for (auto &a : asks) ok = ok && eventually([&] { return isBack(*a); });
        }
    }
    for (auto &a : asks) { if (!ok || !eventually([&] { return isBack(*a); })) break; }
    std::this_thread::sleep_for(2ms);
    c.reset();
    w.over = true;
    w.loop.join();
    for (auto &a : asks) verify(w, *a, false);
    for (auto &s : subs) {
        std::scoped_lock l(s->m);
        bool             same = s->notes.size() == s->due.size();
        for (std::size_t i = 0; same && i < s->due.size(); i++) {
            auto &n = s->notes[i];
            auto &m = s->due[i];
            same    = n.data == m.data && n.error == m.error && n.topic == m.topic && n.rbac == m.rbac;
        }
        VP_CHECK(same, "notifications-differ", s->topic + " at " + std::to_string(s->pub) + ": " + std::to_string(s->notes.size()) + " delivered, " + std::to_string(s->due.size()) + " due" + (s->notes.empty() ? "" : ", last '" + s->notes.back().data.substr(0, 20) + "'") + (s->due.empty() ? "" : ", last due '" + s->due.back().data.substr(0, 20) + "'"));
        ctx().count("notifications delivered", s->notes.size());
    }
    ctx().count("subscriptions", subs.size());
    ctx().distinct(h);
}
static void k02(vp::Ctx &c) {
    const int rounds = std::getenv("VP_LIGHT") ? 60 : 160;
    for (std::uint64_t i = 0; i < vp::scaled(rounds / c.shards) && !c.anyViolation(); i++) {
        vp::Rng r(c.seed * 9001 + i * 17 + std::uint64_t(c.shard) * 100003);
        subscriptions(r);
    }
}

// ---------------------------------------------------------------------------------------------- K03
static void k03(vp::Ctx &c) {
    static const std::vector<std::string> bad{ "foo://srvA/svc", "mdp:/svc", "mdp://srvA/", "mdp://srvA", "mds://pubP/t", "mdp://srvA/a..b/", "mdp://srvA/?x=1", "http://srvA/svc", "mdp://host:port/svc", "mds:/t", "mdp://srvA/%25" };
    const int rounds = std::getenv("VP_LIGHT") ? 100 : 300;
    for (std::uint64_t i = 0; i < vp::scaled(rounds / c.shards) && !c.anyViolation(); i++) {
        vp::Rng r(c.seed * 4001 + i * 19 + std::uint64_t(c.shard) * 100003);
        if (r.chance(50)) { requests(r, true); continue; }
        World w(r, false);
        auto  cl = makeClient(w.context);
        std::vector<std::unique_ptr<Ask>> asks;
        struct Bad { std::string uri; int kind; std::atomic<int> calls{ 0 }, errors{ 0 }; bool thrown = false; };
        std::vector<std::unique_ptr<Bad>> bads;
        int token = 0;
        for (int step = int(r.range(3, 20)); step > 0; step--) {
            if (r.chance(50)) { asks.push_back(genAsk(r, token++)); issue(*cl, asks.back().get()); continue; }
            auto b  = std::make_unique<Bad>();
            b->uri  = r.pick(bad), b->kind = int(r.below(4));
            auto *x = b.get();
            c.crumb("impossible request", b->uri + " kind " + std::to_string(b->kind));
            auto cb = [x](const mdp::Message &m) { x->calls++; if (!m.error.empty()) x->errors++; };
            try {
                const URI<STRICT> u(b->uri);
                // subscribing is what mds addresses are for
                if (b->kind == 0) cl->get(u, cb);
                else if (b->kind == 1) cl->set(u, cb, IoBuffer("x"));
                else if (b->kind == 2) { if (b->uri.starts_with("mds://")) continue; cl->subscribe(u, cb); }
                else cl->unsubscribe(u);
            } catch (const std::exception &) { b->thrown = true; }
            bads.push_back(std::move(b));
            c.distinct(vp::mix(vp::fnv(bads.back()->uri), std::uint64_t(bads.back()->kind)));
        }
        asks.push_back(genAsk(r, token++)), issue(*cl, asks.back().get());
        for (auto &a : asks) { if (!eventually([&] { return isBack(*a); })) break; }
        for (auto &b : bads)
            if (!b->thrown && b->kind < 2) VP_CHECK(eventually([&] { return b->calls > 0; }), "impossible-request-not-reported", b->uri);
        std::this_thread::sleep_for(2ms);
        cl.reset();
        w.over = true;
        w.loop.join();
        for (auto &a : asks) verify(w, *a, true);
        for (auto &b : bads) {
            if (b->thrown) { VP_CHECK(b->calls == 0, "reported-twice", b->uri); ctx().count("impossible requests refused"); }
            else if (b->kind < 2) { 
                static const std::vector<std::string> hopeless{ "foo://srvA/svc", "mdp:/svc", "mds://pubP/t", "http://srvA/svc", "mdp://host:port/svc", "mds:/t" };
                const bool no = std::find(hopeless.begin(), hopeless.end(), b->uri) != hopeless.end();
                VP_CHECK(b->calls == 1 && (!no || b->errors == 1), "impossible-request-not-reported", b->uri + " " + std::to_string(b->calls)); ctx().count("impossible requests reported"); }
        }
    }
}

void vp_main(vp::Ctx &c) {
    if (c.mode == "k01") k01(c);
    if (c.mode == "k02") k02(c);
    if (c.mode == "k03") k03(c);
}
