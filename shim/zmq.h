// A small stand-in for libzmq, which is not installed in the sandbox: the part of its C API that
// opencmw-cpp uses, over in-process pipes ("inproc://" per context, "tcp://" per process).
// It follows the documented behaviour of libzmq 4.3 for the socket types concerned:
//   ROUTER  prefixes what it receives with the routing id of the peer, silently drops what it
//           cannot route;  DEALER round-robin / fair-queued;  PUSH, PULL, PAIR pipes;
//   (X)PUB  sends to the peers with a matching subscription, drops otherwise; XPUB reports
//           subscriptions (each one with ZMQ_XPUB_VERBOSE) and the last unsubscription;
//   SUB     subscriptions are counted, forwarded upstream and replayed to new peers.
// Messages are atomic (all parts or none), ordered per pipe and zero-copy.
// A socket belongs to one thread at a time: concurrent use is a misuse that is reported.
#ifndef VP_SHIM_ZMQ_H
#define VP_SHIM_ZMQ_H
#include <atomic>
#include <cerrno>
#include <chrono>
#include <condition_variable>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <string_view>
#include <thread>
#include <vector>

#define ZMQ_PAIR 0
#define ZMQ_PUB 1
#define ZMQ_SUB 2
#define ZMQ_REQ 3
#define ZMQ_REP 4
#define ZMQ_DEALER 5
#define ZMQ_ROUTER 6
#define ZMQ_PULL 7
#define ZMQ_PUSH 8
#define ZMQ_XPUB 9
#define ZMQ_XSUB 10
#define ZMQ_SUBSCRIBE 6
#define ZMQ_UNSUBSCRIBE 7
#define ZMQ_RCVMORE 13
#define ZMQ_LINGER 17
#define ZMQ_SNDHWM 23
#define ZMQ_RCVHWM 24
#define ZMQ_XPUB_VERBOSE 40
#define ZMQ_HEARTBEAT_IVL 75
#define ZMQ_HEARTBEAT_TTL 76
#define ZMQ_HEARTBEAT_TIMEOUT 77
#define ZMQ_DONTWAIT 1
#define ZMQ_SNDMORE 2
#define ZMQ_POLLIN 1
#define ZMQ_POLLOUT 2
#define ZMQ_POLLERR 4

struct zmq_msg_t {
    alignas(8) unsigned char _[64];
};
struct zmq_pollitem_t {
    void *socket;
    int   fd;
    short events;
    short revents;
};

namespace vpzmq {
inline std::atomic<long> &payloads() { static std::atomic<long> n{ 0 }; return n; }
inline long               livePayloads() { return payloads(); }
struct Payload {
    Payload() { payloads()++; }
    ~Payload() { payloads()--; }
    Payload(const Payload &) = delete;
    std::atomic<int> refs{ 1 };
    void            *data = nullptr;
    size_t           size = 0;
    void (*ffn)(void *, void *) = nullptr;
    void       *hint            = nullptr;
    std::string own;
    static Payload *of(std::string_view s) {
        auto p  = new Payload;
        p->own  = s;
        p->data = p->own.data();
        p->size = p->own.size();
        return p;
    }
    void ref() { refs.fetch_add(1); }
    void unref() {
        if (refs.fetch_sub(1) == 1) {
            if (ffn) ffn(data, hint);
            delete this;
        }
    }
};
struct Frame { // owning reference
    Payload *p = nullptr;
    Frame() = default;
    explicit Frame(Payload *q) : p(q) {}
    Frame(const Frame &o) : p(o.p) { if (p) p->ref(); }
    Frame(Frame &&o) noexcept : p(o.p) { o.p = nullptr; }
    Frame &operator=(Frame o) noexcept { std::swap(p, o.p); return *this; }
    ~Frame() { if (p) p->unref(); }
    std::string_view view() const { return p ? std::string_view(static_cast<char *>(p->data), p->size) : std::string_view(); }
    Payload *release() { auto q = p; p = nullptr; return q; }
};
using Message = std::vector<Frame>;

constexpr uint64_t kMsgLive = 0x5a4d51734d534721ull, kMsgDead = 0xdeadbeefdeadbeefull;
struct Msg { // lives in zmq_msg_t
    uint64_t magic;
    Payload *p;
    uint64_t check;
};
inline Msg *as(zmq_msg_t *m) { return reinterpret_cast<Msg *>(m->_); }

inline std::atomic<long> misuse{ 0 }; // API misuse seen (concurrent use of a socket, dead messages, ...)
inline std::atomic<long> messagesSent{ 0 }, messagesReceived{ 0 }, dropped{ 0 };
inline std::atomic<bool> pollNeverBlocks{ false }; // deterministic single-threaded simulations
inline std::atomic<int>  lastPollResult{ 0 };
inline bool (*fdReady)(int) = nullptr; // readiness of the file descriptors in a poll set
inline std::string       lastMisuse;
inline std::mutex        misuseLock;
inline void              reportMisuse(const std::string &what) {
    std::lock_guard l(misuseLock);
    lastMisuse = what;
    misuse++;
    std::fprintf(stderr, "zmq misuse: %s\n", what.c_str());
}

struct Socket;
struct Ctx;
struct Conn { // a = the connecting socket, b = the bound one
    Socket             *a = nullptr, *b = nullptr;
    std::string         endpoint;
    bool                tcp = false;
    bool                aGone = false, bGone = false;
    std::deque<Message> toA, toB;
    std::string         idA, idB;      // routing id of a as b sees it, and the other way round
    std::map<std::string, int> subsA, subsB; // what a (b) subscribed to
};
using ConnPtr = std::shared_ptr<Conn>;

struct Global {
    std::recursive_mutex            m;
    std::condition_variable_any     cv;
    std::map<std::string, Socket *> tcp;
    uint32_t                        nextId = 1;
    int                             nextPort = 40000;
};
inline Global &g() { static Global *x = new Global; return *x; }

struct Ctx {
    std::map<std::string, Socket *> inproc;
    std::vector<ConnPtr>            pending; // connected before bound
    std::set<Socket *>              sockets;
};
inline std::vector<ConnPtr> &tcpPending() { static auto *x = new std::vector<ConnPtr>; return *x; }
inline std::set<Socket *> &liveSockets() { static auto *x = new std::set<Socket *>; return *x; }

struct Socket {
    Ctx                       *ctx;
    int                        type;
    std::vector<ConnPtr>       conns;
    std::set<std::string>      bound;
    Message                    out;     // parts collected so far
    Message                    in;      // message being read
    size_t                     inPos = 0;
    bool                       more  = false;
    size_t                     rr = 0, rrIn = 0;
    bool                       verbose = false;
    std::map<std::string, int> subs;    // SUB: own subscriptions
    std::deque<Message>        control; // XPUB: subscription messages to report
    std::atomic<int>           busy{ 0 };
    long                       raceProbe = 0; // written without lock by each operation: TSan sees unsynchronised sharing

    std::deque<Message> &incoming(Conn &c) { return c.a == this ? c.toA : c.toB; }
    std::deque<Message> &outgoing(Conn &c) { return c.a == this ? c.toB : c.toA; }
    Socket              *peer(Conn &c) { return c.a == this ? c.b : c.a; }
    std::string         &peerId(Conn &c) { return c.a == this ? c.idB : c.idA; }
    std::map<std::string, int> &peerSubs(Conn &c) { return c.a == this ? c.subsB : c.subsA; }
    bool                 peerGone(Conn &c) { return c.a == this ? c.bGone : c.aGone; }
    bool                 isPub() const { return type == ZMQ_PUB || type == ZMQ_XPUB; }
    bool                 isSub() const { return type == ZMQ_SUB || type == ZMQ_XSUB; }
};

struct Use {
    Socket *s;
    explicit Use(Socket *s_) : s(s_) {
        s->raceProbe++;
        if (s->busy.fetch_add(1) != 0) reportMisuse("a socket is used by two threads at the same time");
    }
    ~Use() { s->busy.fetch_sub(1); }
};

inline bool topicMatches(const std::map<std::string, int> &subs, std::string_view topic) {
    for (auto &[s, n] : subs)
        if (n > 0 && topic.starts_with(s)) return true;
    return false;
}
inline int otherSubscribers(Socket *pub, const std::string &topic) {
    int n = 0;
    for (auto &c : pub->conns) {
        auto it = pub->peerSubs(*c).find(topic);
        if (it != pub->peerSubs(*c).end() && it->second > 0) n++;
    }
    return n;
}
// a subscription change of the peer reaches the publishing end of the connection
inline void applySubscription(Conn &c, Socket *pub, const std::string &topic, bool add) {
    if (!pub || !pub->isPub()) return;
    auto &subs   = pub->peerSubs(c);
    int   before = otherSubscribers(pub, topic);
    bool  notify;
    if (add) {
        subs[topic] = 1;
        notify      = before == 0 || pub->verbose;
    } else {
        subs.erase(topic);
        notify = otherSubscribers(pub, topic) == 0;
    }
    if (pub->type == ZMQ_XPUB && notify) {
        Message m;
        m.emplace_back(Payload::of(std::string(1, add ? '\1' : '\0') + topic));
        pub->control.push_back(std::move(m));
    }
}
inline std::string newId() {
    uint32_t n = g().nextId++;
    std::string s(5, '\0');
    for (int i = 0; i < 4; i++) s[1 + i] = char(n >> (24 - 8 * i));
    return s;
}
inline void attach(const ConnPtr &c, Socket *b) {
    c->b    = b;
    c->bGone = false;
    c->idA  = newId();
    b->conns.push_back(c);
    if (c->a && c->a->isSub())
        for (auto &[t, n] : c->a->subs) applySubscription(*c, b, t, true);
    if (c->a && b->isSub())
        for (auto &[t, n] : b->subs) applySubscription(*c, c->a, t, true);
}
inline bool ready(Socket *s) {
    if (s->inPos < s->in.size()) return true;
    if (!s->control.empty()) return true;
    if (s->isPub()) return false;
    for (auto &c : s->conns)
        if (!s->incoming(*c).empty()) return true;
    return false;
}
inline bool writable(Socket *s) {
    if (s->type == ZMQ_ROUTER || s->type == ZMQ_XSUB || s->isPub()) return true;
    for (auto &c : s->conns)
        if (!s->peerGone(*c)) return true;
    return false;
}
inline void prune(Socket *s) {
    std::erase_if(s->conns, [&](const ConnPtr &c) { return s->peerGone(*c) && s->incoming(*c).empty() && !(c->tcp && c->a == s); });
}
inline bool nextMessage(Socket *s) {
    if (!s->control.empty()) {
        s->in = std::move(s->control.front());
        s->control.pop_front();
        s->inPos = 0;
        return true;
    }
    if (s->isPub()) return false;
    prune(s);
    for (size_t i = 0; i < s->conns.size(); i++) {
        size_t k = (s->rrIn + i) % s->conns.size();
        auto   c = s->conns[k];
        auto  &q = s->incoming(*c);
        if (q.empty()) continue;
        s->in = std::move(q.front());
        q.pop_front();
        if (s->type == ZMQ_ROUTER) s->in.insert(s->in.begin(), Frame(Payload::of(s->peerId(*c))));
        s->inPos = 0;
        s->rrIn  = (k + 1) % s->conns.size();
        return true;
    }
    return false;
}
inline bool deliver(Socket *s) { // s->out is complete; false: would block
    Message m = std::move(s->out);
    s->out.clear();
    messagesSent++;
    switch (s->type) {
    case ZMQ_ROUTER: {
        const std::string id(m.front().view());
        m.erase(m.begin());
        for (auto &c : s->conns)
            if (s->peerId(*c) == id && !s->peerGone(*c)) {
                if (!m.empty()) s->outgoing(*c).push_back(std::move(m));
                return true;
            }
        dropped++;
        return true;
    }
    case ZMQ_PUB:
    case ZMQ_XPUB: {
        const auto topic = m.front().view();
        for (auto &c : s->conns)
            if (!s->peerGone(*c) && topicMatches(s->peerSubs(*c), topic)) s->outgoing(*c).push_back(m);
        return true;
    }
    case ZMQ_XSUB: { // subscriptions are sent as messages
        const auto d = m.front().view();
        if (d.empty() || (d[0] != '\0' && d[0] != '\1')) return true;
        const std::string t(d.substr(1));
        const bool        add = d[0] == '\1';
        if (add) {
            if (s->subs[t]++ != 0) return true;
        } else {
            auto it = s->subs.find(t);
            if (it == s->subs.end() || --it->second != 0) return true;
            s->subs.erase(it);
        }
        for (auto &c : s->conns)
            if (s->peer(*c)) applySubscription(*c, s->peer(*c), t, add);
        return true;
    }
    default: {
        prune(s);
        for (size_t i = 0; i < s->conns.size(); i++) {
            size_t k = (s->rr + i) % s->conns.size();
            auto  &c = s->conns[k];
            if (s->peerGone(*c) && !(c->tcp && c->a == s)) continue;
            s->outgoing(*c).push_back(std::move(m));
            s->rr = (k + 1) % s->conns.size();
            return true;
        }
        return false;
    }
    }
}
} // namespace vpzmq

inline void *zmq_ctx_new() { return new vpzmq::Ctx; }
inline int   zmq_ctx_term(void *c) {
    using namespace vpzmq;
    if (!c) { errno = EFAULT; return -1; }
    auto            *ctx = static_cast<Ctx *>(c);
    std::unique_lock l(g().m);
    g().cv.wait(l, [&] { return ctx->sockets.empty(); });
    delete ctx;
    return 0;
}
inline void *zmq_socket(void *c, int type) {
    using namespace vpzmq;
    auto            *ctx = static_cast<Ctx *>(c);
    std::unique_lock l(g().m);
    auto             s = new Socket{ ctx, type };
    ctx->sockets.insert(s);
    liveSockets().insert(s);
    return s;
}
namespace vpzmq {
inline void detach(Socket *s, const ConnPtr &c) { // s leaves the connection
    if (c->a == s) {
        c->aGone = true;
        c->a     = nullptr;
        if (c->b && c->b->isPub()) {
            auto subs = c->b->peerSubs(*c);
            for (auto &[t, n] : subs) applySubscription(*c, c->b, t, false);
        }
        c->toA.clear();
        std::erase(s->ctx->pending, c);
        std::erase(tcpPending(), c);
    } else {
        c->bGone = true;
        c->b     = nullptr;
        c->subsA.clear();
        c->toB.clear();
        if (c->a && c->a->isPub()) {
            auto subs = c->a->peerSubs(*c);
            for (auto &[t, n] : subs) applySubscription(*c, c->a, t, false);
        }
        if (c->tcp && c->a) tcpPending().push_back(c); // reconnects
    }
}
inline Socket *sock(void *p, const char *what) {
    if (!liveSockets().count(static_cast<Socket *>(p))) {
        reportMisuse(std::string(what) + " on something that is not an open socket");
        errno = 88; // ENOTSOCK
        return nullptr;
    }
    return static_cast<Socket *>(p);
}
} // namespace vpzmq
inline int zmq_close(void *p) {
    using namespace vpzmq;
    if (!p) { errno = EFAULT; return -1; }
    Message          garbage;
    std::unique_lock l(g().m);
    auto             s = sock(p, "zmq_close");
    if (!s) return -1;
    {
        Use u(s);
        for (auto &c : s->conns) detach(s, c);
        for (auto &e : s->bound) {
            s->ctx->inproc.erase(e);
            g().tcp.erase(e);
        }
        s->ctx->sockets.erase(s);
        liveSockets().erase(s);
    }
    delete s;
    g().cv.notify_all();
    return 0;
}
inline int zmq_bind(void *p, const char *ep) {
    using namespace vpzmq;
    std::unique_lock l(g().m);
    auto             s = sock(p, "zmq_bind");
    if (!s) return -1;
    Use               u(s);
    const std::string e(ep);
    const bool        tcp = e.starts_with("tcp://");
    if (!tcp && !e.starts_with("inproc://")) {
        errno = EINVAL;
        return -1;
    }
    auto &table = tcp ? g().tcp : s->ctx->inproc;
    if (table.count(e)) {
        errno = EADDRINUSE;
        return -1;
    }
    table[e] = s;
    s->bound.insert(e);
    auto &pending = tcp ? tcpPending() : s->ctx->pending;
    auto  waiting = pending;
    for (auto &c : waiting)
        if (c->endpoint == e && !c->aGone) {
            std::erase(pending, c);
            attach(c, s);
        }
    g().cv.notify_all();
    return 0;
}
inline int zmq_connect(void *p, const char *ep) {
    using namespace vpzmq;
    std::unique_lock l(g().m);
    auto             s = sock(p, "zmq_connect");
    if (!s) return -1;
    Use               u(s);
    const std::string e(ep);
    const bool        tcp = e.starts_with("tcp://");
    if (!tcp && !e.starts_with("inproc://")) {
        errno = EINVAL;
        return -1;
    }
    if (const auto port = e.rfind(':'); tcp && (port < 6 || port + 1 == e.size() || e.find_first_not_of("0123456789", port + 1) != std::string::npos)) { // as libzmq: a host and the number of a port
        errno = EINVAL;
        return -1;
    }
    auto c      = std::make_shared<Conn>();
    c->a        = s;
    c->endpoint = e;
    c->tcp      = tcp;
    c->idB      = newId();
    s->conns.push_back(c);
    auto &table = tcp ? g().tcp : s->ctx->inproc;
    if (auto it = table.find(e); it != table.end()) attach(c, it->second);
    else (tcp ? tcpPending() : s->ctx->pending).push_back(c);
    g().cv.notify_all();
    return 0;
}
inline int zmq_disconnect(void *p, const char *ep) {
    using namespace vpzmq;
    std::unique_lock l(g().m);
    auto             s = sock(p, "zmq_disconnect");
    if (!s) return -1;
    Use  u(s);
    auto it = s->conns.begin();
    while (it != s->conns.end() && !((*it)->a == s && (*it)->endpoint == ep)) ++it;
    if (it == s->conns.end()) {
        errno = ENOENT;
        return -1;
    }
    auto c = *it;
    s->conns.erase(it);
    detach(s, c);
    g().cv.notify_all();
    return 0;
}
inline int zmq_setsockopt(void *p, int opt, const void *v, size_t n) {
    using namespace vpzmq;
    std::unique_lock l(g().m);
    auto             s = sock(p, "zmq_setsockopt");
    if (!s) return -1;
    Use u(s);
    switch (opt) {
    case ZMQ_SUBSCRIBE:
    case ZMQ_UNSUBSCRIBE: {
        if (s->type != ZMQ_SUB) {
            errno = EINVAL;
            return -1;
        }
        const std::string t(static_cast<const char *>(v), n);
        if (opt == ZMQ_SUBSCRIBE) {
            if (s->subs[t]++ == 0)
                for (auto &c : s->conns)
                    if (s->peer(*c)) applySubscription(*c, s->peer(*c), t, true);
        } else {
            auto it = s->subs.find(t);
            if (it == s->subs.end()) return 0;
            if (--it->second == 0) {
                s->subs.erase(it);
                for (auto &c : s->conns)
                    if (s->peer(*c)) applySubscription(*c, s->peer(*c), t, false);
            }
        }
        g().cv.notify_all();
        return 0;
    }
    case ZMQ_XPUB_VERBOSE:
        if (s->type != ZMQ_XPUB || n != sizeof(int)) {
            errno = EINVAL;
            return -1;
        }
        s->verbose = *static_cast<const int *>(v) != 0;
        return 0;
    case ZMQ_SNDHWM:
    case ZMQ_RCVHWM:
    case ZMQ_LINGER:
    case ZMQ_HEARTBEAT_IVL:
    case ZMQ_HEARTBEAT_TTL:
    case ZMQ_HEARTBEAT_TIMEOUT:
        if (n != sizeof(int)) {
            errno = EINVAL;
            return -1;
        }
        return 0;
    default: errno = EINVAL; return -1;
    }
}
inline int zmq_getsockopt(void *p, int opt, void *v, size_t *n) {
    using namespace vpzmq;
    std::unique_lock l(g().m);
    auto             s = sock(p, "zmq_getsockopt");
    if (!s) return -1;
    Use u(s);
    if (opt != ZMQ_RCVMORE || *n < sizeof(int)) {
        errno = EINVAL;
        return -1;
    }
    std::memset(v, 0, *n); // libzmq zero-extends into larger buffers
    const int more = s->more;
    std::memcpy(v, &more, sizeof more);
    return 0;
}
inline int zmq_msg_init(zmq_msg_t *m) {
    auto x = vpzmq::as(m);
    x->magic = vpzmq::kMsgLive;
    x->p     = nullptr;
    x->check = ~reinterpret_cast<uintptr_t>(x->p);
    return 0;
}
inline int zmq_msg_init_data(zmq_msg_t *m, void *d, size_t n, void (*f)(void *, void *), void *h) {
    auto x = vpzmq::as(m);
    auto p = new vpzmq::Payload;
    p->data = d, p->size = n, p->ffn = f, p->hint = h;
    x->magic = vpzmq::kMsgLive, x->p = p, x->check = ~reinterpret_cast<uintptr_t>(p);
    return 0;
}
namespace vpzmq {
inline bool check(zmq_msg_t *m, const char *what) {
    auto x = as(m);
    if (x->magic != kMsgLive || x->check != ~reinterpret_cast<uintptr_t>(x->p)) {
        reportMisuse(std::string(what) + " on a message that is not initialised (or closed)");
        errno = EFAULT;
        return false;
    }
    return true;
}
} // namespace vpzmq
inline int zmq_msg_close(zmq_msg_t *m) {
    if (!vpzmq::check(m, "zmq_msg_close")) return -1;
    auto x = vpzmq::as(m);
    if (x->p) x->p->unref();
    x->p     = nullptr;
    x->magic = vpzmq::kMsgDead;
    return 0;
}
inline int zmq_msg_move(zmq_msg_t *d, zmq_msg_t *s) {
    if (!vpzmq::check(s, "zmq_msg_move (source)")) return -1;
    if (d == s) return 0;
    if (zmq_msg_close(d) != 0) return -1;
    *vpzmq::as(d) = *vpzmq::as(s);
    return zmq_msg_init(s);
}
inline size_t zmq_msg_size(const zmq_msg_t *m) {
    if (!vpzmq::check(const_cast<zmq_msg_t *>(m), "zmq_msg_size")) return 0;
    auto x = vpzmq::as(const_cast<zmq_msg_t *>(m));
    return x->p ? x->p->size : 0;
}
inline void *zmq_msg_data(zmq_msg_t *m) {
    if (!vpzmq::check(m, "zmq_msg_data")) return nullptr;
    auto x = vpzmq::as(m);
    return x->p ? x->p->data : static_cast<void *>(m->_ + sizeof(vpzmq::Msg));
}
inline int zmq_msg_send(zmq_msg_t *m, void *p, int flags) {
    using namespace vpzmq;
    if (!check(m, "zmq_msg_send")) return -1;
    std::unique_lock l(g().m);
    auto             s = sock(p, "zmq_msg_send");
    if (!s) return -1;
    Use u(s);
    if (s->type == ZMQ_PULL || s->type == ZMQ_SUB) {
        errno = ENOTSUP;
        return -1;
    }
    while (!writable(s)) {
        if (flags & ZMQ_DONTWAIT) {
            errno = EAGAIN;
            return -1;
        }
        g().cv.wait(l);
    }
    auto      x = as(m);
    const int n = int(zmq_msg_size(m));
    s->out.emplace_back(x->p ? x->p : Payload::of(""));
    x->p     = nullptr;
    x->check = ~uintptr_t(0);
    if (!(flags & ZMQ_SNDMORE)) {
        deliver(s);
        g().cv.notify_all();
    }
    return n;
}
inline int zmq_msg_recv(zmq_msg_t *m, void *p, int flags) {
    using namespace vpzmq;
    if (!check(m, "zmq_msg_recv")) return -1;
    std::unique_lock l(g().m);
    auto             s = sock(p, "zmq_msg_recv");
    if (!s) return -1;
    Use u(s);
    if (s->type == ZMQ_PUSH || s->type == ZMQ_PUB) {
        errno = ENOTSUP;
        return -1;
    }
    while (s->inPos >= s->in.size()) {
        s->in.clear();
        s->inPos = 0;
        if (nextMessage(s)) {
            messagesReceived++;
            break;
        }
        if (flags & ZMQ_DONTWAIT) {
            errno = EAGAIN;
            return -1;
        }
        g().cv.wait(l);
    }
    zmq_msg_close(m);
    zmq_msg_init(m);
    auto x   = as(m);
    x->p     = s->in[s->inPos++].release();
    x->check = ~reinterpret_cast<uintptr_t>(x->p);
    s->more  = s->inPos < s->in.size();
    return int(zmq_msg_size(m));
}
inline int zmq_poll(zmq_pollitem_t *items, int n, long timeout) {
    using namespace vpzmq;
    std::unique_lock l(g().m);
    const auto       end = std::chrono::system_clock::now() + std::chrono::milliseconds(timeout < 0 ? 0 : timeout);
    while (true) {
        int got = 0;
        for (int i = 0; i < n; i++) {
            items[i].revents = 0;
            if (!items[i].socket) {
                if (fdReady && fdReady(items[i].fd)) {
                    items[i].revents = ZMQ_POLLIN;
                    got++;
                }
                continue;
            }
            auto s = sock(items[i].socket, "zmq_poll");
            if (!s) return -1;
            if ((items[i].events & ZMQ_POLLIN) && ready(s)) items[i].revents |= ZMQ_POLLIN;
            if ((items[i].events & ZMQ_POLLOUT) && writable(s)) items[i].revents |= ZMQ_POLLOUT;
            if (items[i].revents) got++;
        }
        lastPollResult = got;
        if (got || timeout == 0 || pollNeverBlocks) return got;
        if (timeout < 0) g().cv.wait(l);
        else if (g().cv.wait_until(l, end) == std::cv_status::timeout) timeout = 0;
    }
}
inline const char *zmq_strerror(int e) { return std::strerror(e); }
#endif
