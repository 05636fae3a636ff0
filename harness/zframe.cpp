// Q01: MDP messages over zmq sockets, both formats, against raw peers; hostile multi-part messages; the life of frames.
#include <deque>
#include "zpeer.hpp"
#include <MdpMessage.hpp>
#include <zmq/ZmqUtils.hpp>

using vp::ctx;
using namespace opencmw;
using zp::Frames;
using zp::M;
using zp::Peer;
using mdp::MessageFormat;
static constexpr auto WITH = MessageFormat::WithSourceId, WITHOUT = MessageFormat::WithoutSourceId;

static std::string genBytes(vp::Rng &r) {
    switch (r.below(8)) {
    case 0: return "";
    case 1: return std::string(1, char(r.below(256)));
    case 2: return std::string(r.range(1, 40), '\0');
    case 3: return r.bytes(100, 5000);
    default: return r.bytes(0, 40);
    }
}
static std::string genTopic(vp::Rng &r) {
    static const char *t[] = { "/", "", "/a/b.c_d", "/a?x=1", "http://user:pw@host:8080/p/q?x=%20&y#frag", "mds://h/", "/x?ctx=FAIR.SELECTOR.C%3D1%3AS%3D2&contentType=text%2Fhtml", "?only=query", "#f" };
    return r.pick(t);
}
static M genM(vp::Rng &r) {
    M m;
    m.src = genBytes(r), m.proto = r.chance(80) ? (r.chance(50) ? zp::C03 : zp::W03) : genBytes(r), m.service = r.chance(50) ? "/svc" : genBytes(r), m.reqId = genBytes(r), m.topic = genTopic(r), m.data = genBytes(r), m.error = genBytes(r), m.rbac = genBytes(r);
    m.cmd = char(r.below(11));
    return m;
}
static bool same(const M &a, const M &b, bool src) { return (!src || a.src == b.src) && a.proto == b.proto && a.cmd == b.cmd && a.service == b.service && a.reqId == b.reqId && a.topic == b.topic && a.data == b.data && a.error == b.error && a.rbac == b.rbac; }

static IoBuffer buf(const std::string &s, vp::Rng &r) {
    if (r.chance(30)) { // grown, with spare capacity
        IoBuffer b;
        b.reserve_spare(r.below(300) + s.size());
        b.resize(s.size());
        std::copy(s.begin(), s.end(), reinterpret_cast<char *>(b.data()));
        return b;
    }
    return IoBuffer(s.data(), s.size());
}
template<MessageFormat F>
static mdp::BasicMessage<F> toLib(const M &m, vp::Rng &r) {
    mdp::BasicMessage<F> x;
    if constexpr (F == WITH) x.sourceId = m.src;
    x.protocolName = m.proto, x.command = static_cast<mdp::Command>(m.cmd), x.serviceName = m.service, x.clientRequestID = buf(m.reqId, r), x.topic = mdp::Message::URI(m.topic), x.data = buf(m.data, r), x.error = m.error, x.rbac = buf(m.rbac, r);
    return x;
}
static std::string text(const IoBuffer &b) { return { reinterpret_cast<const char *>(b.data()), b.size() }; }
template<MessageFormat F>
static M fromLib(const mdp::BasicMessage<F> &x) {
    M m;
    if constexpr (F == WITH) m.src = x.sourceId;
    m.proto = x.protocolName, m.cmd = char(x.command), m.service = x.serviceName, m.reqId = text(x.clientRequestID), m.topic = x.topic.str(), m.data = text(x.data), m.error = x.error, m.rbac = text(x.rbac);
    return m;
}

// one end is the library, the other a raw peer
static void exchange(vp::Ctx &c, bool withSource) {
    vp::Rng     &r = c.rng;
    zmq::Context zctx;
    static int   n = 0;
    const auto   address = "inproc://q01-" + std::to_string(++n);
    const int    rawType = !withSource && r.chance(50) ? ZMQ_PAIR : ZMQ_DEALER;
    zmq::Socket  lib(zctx, withSource ? ZMQ_ROUTER : rawType);
    zmq::initializeSocket(lib).assertSuccess();
    zmq::invoke(zmq_bind, lib, address.data()).assertSuccess();
    std::vector<Peer>        raw;
    std::vector<std::string> id;
    const int                peers = withSource ? int(r.range(1, 3)) : 1;
    for (int i = 0; i < peers; ++i) {
        raw.emplace_back(zctx.zmq_ptr, rawType, address.c_str());
        id.emplace_back();
    }
    std::vector<std::deque<M>> due(peers); // what the raw peers have to receive
    std::deque<M>              dueLib;     // what the library has to receive, in order per peer
    std::vector<std::deque<M>> dueLibBy(peers);
    std::uint64_t              h = withSource;
    std::string                trace;
    auto takeLib = [&]() -> bool { // one receive attempt of the library
        std::optional<M> got;
        try {
            if (withSource) {
                if (auto m = zmq::receive<WITH>(lib)) got = fromLib(*m);
            } else if (auto m = zmq::receive<WITHOUT>(lib)) got = fromLib(*m);
        } catch (const std::exception &e) {
            ctx().violation("receive-throws", std::string("receive() throws ") + e.what() + "; " + trace);
            return false;
        }
        if (!got) return false;
        ctx().count("received");
        ctx().eval();
        for (int i = 0; i < peers; ++i) {
            if (withSource && !id[i].empty() && id[i] != got->src) continue;
            if (!dueLibBy[i].empty() && same(dueLibBy[i].front(), *got, false)) {
                if (withSource && id[i].empty()) id[i] = got->src;
                dueLibBy[i].pop_front();
                return true;
            }
        }
        ctx().violation("received-other-message", "receive() gives " + got->str() + (dueLibBy[0].empty() ? " though nothing valid was sent" : " instead of " + dueLibBy[0].front().str()) + "; " + trace.substr(trace.size() > 800 ? trace.size() - 800 : 0));
        return true;
    };
    for (int step = 0, steps = int(r.range(5, 40)); step < steps && !c.anyViolation(); ++step) {
        const int p = int(r.below(peers));
        h           = vp::mix(h, step);
        switch (r.below(5)) {
        case 0:
        case 1: { // raw -> library, well formed
            auto m = genM(r);
            m.src  = "";
            c.crumb("send", m.str());
            raw[p].send(m);
            dueLibBy[p].push_back(m);
            trace += "valid from " + std::to_string(p) + "; ";
            h = vp::mix(h, vp::fnv(m.data) ^ m.cmd);
            break;
        }
        case 2: { // raw -> library, not a message of the protocol
            Frames f;
            if (r.chance(40)) {
                auto n2 = r.pick(std::vector<int>{ 1, 2, 3, 5, 7, 9, 10, 15, 40 });
                auto v  = genM(r).frames();
                for (int i = 0; i < n2; ++i) f.push_back(i < int(v.size()) && r.chance(70) ? v[i] : genBytes(r));
            } else {
                f = genM(r).frames();
                switch (r.below(3)) {
                case 0: f[1] = r.chance(40) ? "" : r.bytes(2, 9); break;
                case 1: f[1] = std::string(1, char(r.range(11, 255))); break;
                default: {
                    static const char *bad[] = { "a b", "/%%%\x01", "/\xff", "/x y?z", "http://h:1/\"", "ht tp:/" };
                    f[4] = r.pick(bad);
                }
                }
            }
            c.crumb("hostile frames", vp::esc(f[0], 60) + " ... " + std::to_string(f.size()));
            raw[p].send(f);
            trace += "hostile " + std::to_string(f.size()) + " frames from " + std::to_string(p) + "; ";
            ctx().count("hostile");
            break;
        }
        case 3: { // library -> raw
            auto m = genM(r);
            if (withSource) {
                if (id[p].empty() || r.chance(10)) {
                    m.src       = "nobody" + m.src;
                    auto result = zmq::send(toLib<WITH>(m, r), lib); // goes nowhere
                    (void) result.isValid();
                    trace += "to nobody; ";
                    break;
                }
                m.src = id[p];
            }
            due[p].push_back(m);
            bool ok;
            if (withSource) { auto x = toLib<WITH>(m, r); ok = zmq::send(std::move(x), lib).isValid(); }
            else { auto x = toLib<WITHOUT>(m, r); ok = zmq::send(std::move(x), lib).isValid(); }
            VP_CHECK(ok, "send-fails", "send() reports a failure");
            trace += "to " + std::to_string(p) + "; ";
            h = vp::mix(h, vp::fnv(m.data) ^ m.cmd);
            break;
        }
        default: // library reads, a few times
            for (int k = 0, n2 = int(r.below(4)); k < n2; ++k) takeLib();
        }
        for (int i = 0; i < peers; ++i)
            while (auto f = raw[i].recv()) {
                ctx().eval();
                ctx().count("sent");
                auto m = M::from(*f);
                if (!m) { ctx().violation("malformed-on-the-wire", "a message of " + std::to_string(f->size()) + " frames was sent"); continue; }
                if (due[i].empty()) { ctx().violation("sent-too-much", m->str()); continue; }
                VP_CHECK(same(due[i].front(), *m, false), "sent-other-message", "sent " + due[i].front().str() + " on the wire " + m->str());
                due[i].pop_front();
            }
        for (int i = 0; i < peers; ++i) {
            VP_CHECK(due[i].empty(), "message-not-sent", "a message did not reach its destination");
            due[i].clear();
        }
    }
    // everything valid arrives, whatever was in between; every failed attempt consumes at most one message
    for (int idle = 0; idle < 200 && !c.anyViolation(); ++idle) {
        bool left = false;
        for (auto &d : dueLibBy) left |= !d.empty();
        if (!left) break;
        if (takeLib()) idle = 0;
    }
    for (auto &d : dueLibBy) VP_CHECK(d.empty(), "message-not-received", std::to_string(d.size()) + " valid messages were not received; " + trace);
    VP_CHECK(vpzmq::misuse == 0, "zmq-misuse", vpzmq::lastMisuse);
    c.distinct(h);
}

// MessageFrame objects: contents follow moves, are released once
static void frames(vp::Ctx &c) {
    vp::Rng     &r = c.rng;
    zmq::Context zctx;
    static int   n       = 0;
    const auto   address = "inproc://q01f-" + std::to_string(++n);
    zmq::Socket  a(zctx, ZMQ_PAIR), b(zctx, ZMQ_PAIR);
    zmq::invoke(zmq_bind, a, address.data()).assertSuccess();
    zmq::invoke(zmq_connect, b, address.data()).assertSuccess();
    static const std::string literal = "a static text that is long enough";
    struct Slot {
        std::unique_ptr<zmq::MessageFrame> f;
        std::string                        v;
    };
    Slot                    s[4];
    std::deque<std::string> wire;
    std::uint64_t           h = 3;
    std::string             trace;
    for (int step = 0; step < 40 && !c.anyViolation(); ++step) {
        auto &x = s[r.below(4)], &y = s[r.below(4)];
        int   op = int(r.below(9));
        h        = vp::mix(h, op * 16 + (&x - s) * 4 + (&y - s));
        trace += std::to_string(op) + ":" + std::to_string(&x - s) + "," + std::to_string(&y - s) + " ";
        c.crumb("frames", trace);
        switch (op) {
        case 0: { auto v = genBytes(r); x.f = std::make_unique<zmq::MessageFrame>(std::string(v)); x.v = v; break; }
        case 1: { auto v = genBytes(r); x.f = std::make_unique<zmq::MessageFrame>(buf(v, r)); x.v = v; break; }
        case 2: x.f = std::make_unique<zmq::MessageFrame>(zmq::MessageFrame::fromStaticData(literal)); x.v = literal; break;
        case 3: { char ch = char(r.below(256)); x.f = std::make_unique<zmq::MessageFrame>(ch); x.v = std::string(1, ch); break; }
        case 4: x.f = std::make_unique<zmq::MessageFrame>(); x.v = ""; break;
        case 5: if (x.f && y.f && &x != &y) { *x.f = std::move(*y.f); x.v = y.v; y.v = ""; } break;
        case 6: if (y.f && &x != &y) { x.f = std::make_unique<zmq::MessageFrame>(std::move(*y.f)); x.v = y.v; y.v = ""; } break;
        case 7: if (x.f && y.f && &x != &y) { x.f->swap(*y.f); std::swap(x.v, y.v); } break;
        default:
            if (!x.f) break;
            if (r.chance(50)) {
                VP_CHECK(x.f->send(a, ZMQ_DONTWAIT).isValid(), "frame-send", "send() of a frame fails");
                wire.push_back(x.v);
                x.v = "";
            } else {
                auto res = x.f->receive(b, ZMQ_DONTWAIT);
                VP_CHECK(res.isValid() == !wire.empty(), "frame-receive", "receive() of a frame");
                if (res.isValid()) { x.v = wire.front(); wire.pop_front(); }
            }
        }
        for (auto &z : s)
            if (z.f) {
                ctx().eval();
                VP_CHECK(z.f->size() == z.v.size() && z.f->data() == z.v, "frame-content", "a frame holds '" + vp::esc(std::string(z.f->data()), 60) + "' instead of '" + vp::esc(z.v, 60) + "'; " + trace);
            }
    }
    VP_CHECK(vpzmq::misuse == 0, "zmq-misuse", vpzmq::lastMisuse);
    c.distinct(h);
}

void vp_main(vp::Ctx &c) {
    for (std::uint64_t i = 0, n = vp::scaled(4000); i < n && !c.anyViolation(); ++i) {
        exchange(c, i & 1);
        if (i % 2) frames(c);
    }
    VP_CHECK(vpzmq::livePayloads() == 0, "frame-leak", std::to_string(vpzmq::livePayloads()) + " frame contents are never released");
}
