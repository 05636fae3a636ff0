// R02: HTTP requests and their replies, R03: long polling (HTTP/2 sessions of the REST server, over the stand-in for nghttp2)
#include <arpa/inet.h>
#include <netinet/tcp.h>
#include <cassert>
#include <csignal>
#include <deque>
#include <format>
#include <iostream>
#include <list>
#include <map>
#include <poll.h>
#include <print>
#include <set>
#include <sys/syscall.h>
#include <unistd.h>
#include <vector>
#include "vp.hpp"
#include <majordomo/RestServer.hpp>
#if defined(__SANITIZE_ADDRESS__)
extern "C" std::size_t __sanitizer_get_current_allocated_bytes();
#endif

// a socket buffer that fills up, and bytes that come in pieces: what a kernel may do at any time
static vp::Rng      *g_faults = nullptr; // set while the server runs
static std::set<int> g_full;
extern "C" ssize_t send(int fd, const void *data, std::size_t n, int flags) {
    if (g_faults && g_full.erase(fd)) { errno = EAGAIN; return -1; }
    if (g_faults && n > 1 && g_faults->chance(8)) n = 1 + g_faults->below(n - 1), g_full.insert(fd), vp::ctx().count("partial writes");
    return ::syscall(SYS_sendto, fd, data, n, flags, nullptr, 0);
}
extern "C" ssize_t recv(int fd, void *data, std::size_t n, int flags) {
    if (g_faults && n > 1 && g_faults->chance(8)) n = 1 + g_faults->below(n - 1), vp::ctx().count("partial reads");
    return ::syscall(SYS_recvfrom, fd, data, n, flags, nullptr, nullptr);
}

using vp::ctx;
using namespace opencmw;
using namespace opencmw::majordomo::detail::rest;
using BMessage = mdp::BasicMessage<mdp::MessageFormat::WithSourceId>;

struct Reply { std::vector<std::pair<std::string, std::string>> headers; std::string body; bool begun = false, done = false, reset = false;
    std::string get(const std::string &n) const { std::string v = "<none>"; int k = 0; for (auto &[a, b] : headers) if (a == n) v = b, k++; return k > 1 ? "<several>" : v; } };
struct Peer {
    int                  fd = -1, number = 0;
    std::string          out, in;
    int                  next = 1;
    std::map<int, Reply> replies;
    std::set<int>        open, cancelled;
    bool                 reading = true, lost = false;
    ~Peer() { if (fd != -1) ::close(fd); }
    void push(vp::Rng &r, bool all) { // write some of what is to be sent
        while (!out.empty()) {
            std::size_t n = all ? out.size() : r.chance(40) && out.size() >= 1024 ? 1024 * (1 + r.below(out.size() / 1024)) : 1 + r.below(out.size());
            const auto  k = ::send(fd, out.data(), n, MSG_NOSIGNAL);
            if (k <= 0) { if (k < 0 && errno != EAGAIN) lost = true; return; }
            out.erase(0, std::size_t(k));
            if (!all) return;
        }
    }
    void pull() {
        if (!reading || fd == -1) return;
        int one = 1;
        ::setsockopt(fd, IPPROTO_TCP, TCP_QUICKACK, &one, sizeof one); // no waiting for delayed acknowledgements
        char buf[65536];
        for (;;) {
            const auto k = ::recv(fd, buf, sizeof buf, MSG_DONTWAIT);
            if (k == 0 || (k < 0 && errno != EAGAIN)) { lost = true; break; }
            if (k < 0) break;
            in.append(buf, std::size_t(k));
        }
        std::size_t at = 0;
        while (in.size() - at >= 9) {
            const auto len = vph2::get(in.data() + at, 3);
            if (in.size() - at < 9 + len) break;
            const int  type = in[at + 3], flags = in[at + 4], id = int(vph2::get(in.data() + at + 5, 4));
            const auto payload = in.substr(at + 9, len);
            at += 9 + len;
            if (type == NGHTTP2_SETTINGS) continue;
            if (!open.contains(id)) { if (!cancelled.contains(id)) ctx().violation("reply-to-nobody", "stream " + std::to_string(id)); continue; }
            auto &x = replies[id];
            if (x.done) { ctx().violation("reply-twice", "stream " + std::to_string(id)); continue; }
            if (type == NGHTTP2_RST_STREAM) { x.done = x.reset = true; continue; }
            if (type == NGHTTP2_HEADERS) {
                if (x.begun) { ctx().violation("reply-twice", "headers of stream " + std::to_string(id)); continue; }
                x.begun = true;
                for (std::size_t i = 0; i < payload.size();) {
                    auto n = vph2::get(&payload[i], 2); auto name = payload.substr(i + 2, n); i += 2 + n;
                    n = vph2::get(&payload[i], 4); x.headers.emplace_back(name, payload.substr(i + 4, n)); i += 4 + n;
                }
                if (x.headers.empty() || x.headers[0].first != ":status") ctx().violation("status-not-first", "");
            } else x.body += payload;
            if (flags & NGHTTP2_FLAG_END_STREAM) x.done = true;
        }
        in.erase(0, at);
    }
    int begin(const std::string &method, const std::string &path, const std::vector<std::pair<std::string, std::string>> &more, bool end) {
        const int   id = next;
        next += 2;
        std::string p;
        vph2::field(p, ":method", method), vph2::field(p, ":path", path);
        for (auto &[n, v] : more) vph2::field(p, n, v);
        out += vph2::frame(NGHTTP2_HEADERS, uint8_t(NGHTTP2_FLAG_END_HEADERS | (end ? NGHTTP2_FLAG_END_STREAM : 0)), id, p);
        open.insert(id);
        return id;
    }
    void data(int id, const std::string &d, bool end) { out += vph2::frame(NGHTTP2_DATA, end ? NGHTTP2_FLAG_END_STREAM : 0, id, d); }
    void cancel(int id) { out += vph2::frame(NGHTTP2_RST_STREAM, 0, id, std::string("\0\0\0\10", 4)); open.erase(id), replies.erase(id), cancelled.insert(id); }
};
struct World {
    vp::Rng                           &r;
    RestServer                         server;
    uint16_t                           port = 0;
    std::vector<std::unique_ptr<Peer>> peers;
    std::vector<BMessage>              inbox;
    std::string                        story;
    std::size_t                        polled = 0;
    explicit World(vp::Rng &rng, std::vector<majordomo::rest::Handler> handlers = {}) : r(rng), server(std::move(RestServer::unencrypted().value())) {
        server.setHandlers(std::move(handlers));
        majordomo::rest::Settings s;
        s.port      = 0;
        s.protocols = majordomo::rest::Protocol::Http2;
        if (auto b = server.bind(s); !b) { std::println(stderr, "bind: {}", b.error()); std::exit(3); }
        std::vector<zmq_pollitem_t> items;
        server.populatePollerItems(items);
        sockaddr_in a{};
        socklen_t   n = sizeof a;
        ::getsockname(items.at(0).fd, reinterpret_cast<sockaddr *>(&a), &n);
        port = a.sin_port;
    }
    Peer &connect(bool ethernet = false) {
        auto p = std::make_unique<Peer>();
        p->fd  = ::socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0);
        if (ethernet || r.chance(30)) { int b = 1448; ::setsockopt(p->fd, IPPROTO_TCP, TCP_MAXSEG, &b, sizeof b); } // the server's socket buffer depends on it
        if (ethernet || (ctx().mode == "r02" && r.chance(15))) { int b = 30000; ::setsockopt(p->fd, SOL_SOCKET, SO_RCVBUF, &b, sizeof b); }
        int one = 1;
        ::setsockopt(p->fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
        sockaddr_in a{};
        a.sin_family = AF_INET, a.sin_port = port, a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        ::connect(p->fd, reinterpret_cast<sockaddr *>(&a), sizeof a);
        p->number = int(peers.size());
        peers.push_back(std::move(p));
        return *peers.back();
    }
    void serve(int timeout = 0) { // one turn of the broker's loop
        std::vector<zmq_pollitem_t> items;
        server.populatePollerItems(items);
        polled = items.size();
        std::vector<pollfd> f;
        for (auto &i : items) f.push_back({ i.fd, short((i.events & ZMQ_POLLIN ? POLLIN : 0) | (i.events & ZMQ_POLLOUT ? POLLOUT : 0)), 0 });
        if (::poll(f.data(), f.size(), timeout) <= 0) return;
        for (auto &x : f) {
            const bool in = x.revents & (POLLIN | POLLHUP | POLLERR), out = x.revents & POLLOUT;
            if (!in && !out) continue;
            ctx().crumb("turn", story);
            g_faults = &r;
            auto got = server.processReadWrite(x.fd, in, out);
            g_faults = nullptr;
            g_full.clear();
            for (auto &m : got) inbox.push_back(std::move(m));
        }
    }
    void pump(bool all) {
        for (auto &p : peers) if (p->fd != -1) p->push(r, all);
        serve();
        for (auto &p : peers) p->pull();
    }
    bool settle(auto done, const char *what) { // until done(); false: never
        const auto t0 = std::chrono::steady_clock::now();
        for (int i = 0;; i++) {
            if (done()) return true;
            pump(i > 50);
            if (ctx().anyViolation()) return false;
            if (i > 2000 && std::chrono::steady_clock::now() - t0 > std::chrono::seconds(25)) { ctx().violation(what, story.size() > 1500 ? story.substr(story.size() - 1500) : story); return false; }
            if (i > 200) ::usleep(100);
        }
    }
};

// ------------------------------------------------------------------------------------------------ R02
struct Req {
    Peer       *peer;
    int         stream;
    std::string method, service, payload, sent, mime;
    std::map<std::string, std::string> params;
    enum { Uploading, Made, Seen, Answered, Checked, Gone } state = Uploading;
    bool        local = false; // answered by the HTTP server itself
    std::string status, body;  // the expected reply
    BMessage    message;
};
static std::string enc(const std::string &s) { std::string o; for (unsigned char c : s) { if (isalnum(c)) o += char(c); else o += std::format("%{:02X}", c); } return o; }
static std::string str(const IoBuffer &b) { return { reinterpret_cast<const char *>(b.data()), b.size() }; }
static std::string randomData(vp::Rng &r) { return r.chance(20) ? "" : r.chance(10) ? r.bytes(100000, 700000) : r.chance(30) ? r.bytes(4000, 40000) : r.bytes(1, 600); }

static std::vector<majordomo::rest::Handler> handlers(vp::Rng &r, std::map<std::string, std::string> &bodies, std::deque<std::string> &store) {
    std::vector<majordomo::rest::Handler> hs;
    for (std::string p : { "/files/*", "/files/special/*", "/files/special/exact", "/*never", "/exact" }) {
        auto body = randomData(r);
        if (body.empty()) body = "x";
        bodies[p] = body;
        store.push_back(body);
        const int how = int(r.below(3));
        hs.push_back({ "GET", p, [&kept = store.back(), how](const majordomo::rest::Request &) {
            majordomo::rest::Response x;
            x.code = 200;
            x.headers.emplace_back("content-type", "text/plain");
            if (how == 0) x.body = IoBuffer(kept.data(), kept.size());
            else if (how == 1) x.bodyView = std::span(reinterpret_cast<const std::uint8_t *>(kept.data()), kept.size());
            else x.bodyReader = [&kept, at = std::size_t(0)](std::span<std::uint8_t> b) mutable -> std::expected<majordomo::rest::Response::ReadStatus, std::string> {
                const auto n = std::min(b.size(), kept.size() - at);
                std::memcpy(b.data(), kept.data() + at, n), at += n;
                return majordomo::rest::Response::ReadStatus{ n, at < kept.size() };
            };
            return x;
        } });
    }
    for (std::size_t i = hs.size(); i > 1; i--) std::swap(hs[i - 1], hs[r.below(i)]);
    return hs;
}
static void requests(vp::Rng &r, int round) {
    std::map<std::string, std::string> bodies;
    std::deque<std::string>            store;
    World            w(r, handlers(r, bodies, store));
    std::list<Req>   reqs;
    std::set<std::string> ids;
    int              serial = 0;
    const int        nPeers = int(r.range(1, 4));
    for (int i = 0; i < nPeers; i++) w.connect();
    auto alive = [&](auto &q) { return q.peer->fd != -1; };
    auto note  = [&](const Req &q, const std::string &what) { w.story += std::format(" {}:{} {}", q.peer->number, q.stream, what); };
    auto check = [&] { // messages and replies
        for (auto &m : w.inbox) {
            const auto pm = m.topic.queryParamMap();
            const auto it = pm.find("id");
            const auto no = it == pm.end() ? std::string() : it->second.value_or("");
            auto q = std::find_if(reqs.begin(), reqs.end(), [&](auto &x) { return x.params.contains("id") && x.params["id"] == no; });
            if (q == reqs.end()) { ctx().violation("message-out-of-thin-air", std::string(m.topic.str())); continue; }
            if (q->state == Req::Gone) { ctx().count("messages of gone clients"); continue; }
            VP_CHECK(q->state == Req::Made, "request-not-made-once", std::string(q->state == Req::Uploading ? "before it was complete: " : "twice: ") + std::string(m.topic.str()));
            q->state = Req::Seen;
            VP_CHECK(m.command == (q->method == "GET" ? mdp::Command::Get : mdp::Command::Set), "wrong-command", q->method);
            VP_CHECK(m.serviceName == q->service, "wrong-service", m.serviceName + " instead of " + q->service);
            VP_CHECK(str(m.data) == q->payload, "wrong-payload", std::format("{} instead of {} bytes", m.data.size(), q->payload.size()));
            auto want = q->params;
            want["contentType"] = q->mime;
            std::map<std::string, std::string> got;
            for (auto &[k, v] : pm) got[k] = v.value_or("");
            VP_CHECK(got == want && m.topic.path().value_or("") == q->service, "wrong-topic", std::string(m.topic.str()) + " of " + q->service);
            const auto id = str(m.clientRequestID);
            VP_CHECK(ids.insert(id).second, "request-id-reused", id);
            q->message = std::move(m);
            note(*q, "seen");
            ctx().count("requests");
        }
        w.inbox.clear();
        for (auto &q : reqs) {
            if (!alive(q) || q.state == Req::Gone) continue;
            auto it = q.peer->replies.find(q.stream);
            if (it == q.peer->replies.end() || !it->second.begun) continue;
            if (q.state == Req::Uploading) { ctx().violation("reply-before-request", q.method + " " + q.service + " answered with " + it->second.get(":status") + " while it is being sent"); continue; }
            if (!q.local && q.state != Req::Answered && q.state != Req::Checked) { ctx().violation("reply-out-of-thin-air", q.method + " " + q.service + " answered with " + it->second.get(":status")); continue; }
            if (!it->second.done || q.state == Req::Checked) continue;
            auto &x = it->second;
            VP_CHECK(!x.reset && (x.get(":status") == q.status || (q.status == "error" && x.get(":status") >= "400" && x.get(":status") < "600")), "wrong-status", q.method + " " + q.service + " gave " + x.get(":status") + " instead of " + q.status);
            if (q.status != "error") VP_CHECK(x.body == q.body, "wrong-body", std::format("{} {} {} instead of {} bytes", q.method, q.service, x.body.size(), q.body.size()));
            if (!q.local) {
                VP_CHECK(x.get("content-length") == std::to_string(q.body.size()), "wrong-length", x.get("content-length") + " instead of " + std::to_string(q.body.size()));
                VP_CHECK(x.get("x-opencmw-service-name") == q.service, "wrong-service-name", x.get("x-opencmw-service-name"));
            }
            q.state = Req::Checked;
            ctx().count("replies");
        }
    };
    auto answer = [&](Req &q) {
        BMessage m;
        m.command = mdp::Command::Final, m.clientRequestID = q.message.clientRequestID, m.serviceName = q.service, m.topic = q.message.topic;
        if (r.chance(20)) m.error = "failed " + r.str("abc", 1, 30), q.status = "500", q.body = m.error;
        else { auto d = randomData(r); m.data = IoBuffer(d.data(), d.size()); q.status = "200", q.body = d; }
        if (r.chance(10)) { // replies to nobody
            BMessage x; x.command = mdp::Command::Final; const auto id = r.chance(50) ? std::string("9999999") : r.bytes(0, 10); x.clientRequestID = IoBuffer(id.data(), id.size());
            if (!ids.contains(id) && (id.empty() || !isdigit(static_cast<unsigned char>(id[0])) || id == "9999999")) w.server.handleResponse(std::move(x));
        }
        BMessage copy = m;
        w.server.handleResponse(std::move(m));
        q.state = Req::Answered;
        note(q, "answered " + q.status);
        if (r.chance(5)) w.server.handleResponse(std::move(copy)); // twice
    };
    for (int step = int(r.range(20, 120)); step > 0 && !ctx().anyViolation(); step--) {
        std::vector<Peer *> ps;
        for (auto &p : w.peers) if (p->fd != -1) ps.push_back(p.get());
        if (ps.empty()) ps.push_back(&w.connect());
        Peer *p = ps[r.below(ps.size())];
        switch (r.below(11)) {
        case 0: case 1: case 2: case 3: { // a request of a service
            Req q;
            q.peer    = p;
            q.method  = r.chance(50) ? "GET" : r.chance(50) ? "PUT" : "POST";
            q.service = std::string("/") + r.str("abcXYZ", 1, 6) + (r.chance(30) ? "/sub" : "");
            q.params["id"] = std::to_string(serial++);
            for (int i = int(r.below(3)); i > 0; i--) q.params[r.str("klmn", 1, 4)] = r.str("abc XYZ/&=#?%+", 1, 12);
            std::string path = q.service + "?";
            for (auto &[k, v] : q.params) path += (path.ends_with("?") ? "" : "&") + k + "=" + enc(v);
            std::vector<std::pair<std::string, std::string>> h;
            q.mime = "application/json";
            const char *const MT[] = { "application/json", "text/html", "application/octet-stream" };
            if (r.chance(40)) q.mime = MT[r.below(3)], h.emplace_back("content-type", q.mime);
            else if (r.chance(30)) { q.mime = MT[r.below(3)]; h.emplace_back("accept", r.chance(50) ? q.mime : "image/webp, " + q.mime + ",*/*"); }
            else if (r.chance(20)) h.emplace_back("content-type", "strange/type");
            if (r.chance(30)) h.emplace_back("user-agent", r.str("abc", 1, 2000));
            const bool whole = q.method == "GET" || r.chance(15);
            if (!whole) q.payload = randomData(r);
            q.stream = p->begin(q.method, path, h, whole);
            q.state  = whole ? Req::Made : Req::Uploading;
            note(q, q.method + (whole ? "" : "..."));
            reqs.push_back(q);
            break;
        }
        case 4: { // answered by the server itself
            Req q;
            q.peer = p, q.local = true;
            std::string path;
            switch (r.below(4)) {
            case 0: q.method = "OPTIONS", q.service = path = "/any", q.status = "204"; break;
            case 1: q.method = r.pick(std::vector<std::string>{ "DELETE", "HEAD", "get", "PATCH", "TRACE" }), q.service = path = "/any", q.status = "error"; break;
            default: {
                const auto [req, key] = r.pick(std::vector<std::pair<std::string, std::string>>{ { "/files/a", "/files/*" }, { "/files/", "/files/*" }, { "/files/special/x", "/files/special/*" }, { "/files/special/exact", "/files/special/exact" }, { "/files/special", "/files/*" }, { "/exact", "/exact" }, { "/files/special/exact/more", "/files/special/*" } });
                q.method = "GET", q.service = path = req, q.status = "200", q.body = bodies[key];
            }
            }
            q.stream = p->begin(q.method, path, {}, true);
            q.state  = Req::Made;
            note(q, q.method + " " + path);
            reqs.push_back(q);
            break;
        }
        case 5: case 6: // go on with uploads
            for (auto &q : reqs) if (q.state == Req::Uploading && alive(q) && r.chance(60)) {
                const auto rest = q.payload.size() - q.sent.size();
                const auto n    = r.chance(50) ? rest : rest ? r.below(rest) : 0;
                const bool end  = n == rest && r.chance(80);
                for (std::size_t at = 0; at < n || (at == 0 && end);) {
                    const auto k = std::min<std::size_t>(n - at, 1 + r.below(16384));
                    const bool last = at + k == n;
                    q.peer->data(q.stream, q.payload.substr(q.sent.size(), k), last && end);
                    q.sent += q.payload.substr(q.sent.size(), k), at += k;
                    if (last) break;
                }
                if (end) q.state = Req::Made, note(q, "complete");
            }
            break;
        case 7: for (auto &q : reqs) if (q.state == Req::Seen && r.chance(60)) answer(q); break;
        case 8: { // a client changes its mind
            std::vector<Req *> c;
            for (auto &q : reqs) if (alive(q) && q.state < Req::Checked) c.push_back(&q);
            if (c.empty() || r.chance(50)) break;
            auto &q = *c[r.below(c.size())];
            q.peer->cancel(q.stream), note(q, "cancelled");
            if (q.state == Req::Seen && r.chance(50)) answer(q); // may cross
            q.state = Req::Gone;
            ctx().count("cancelled");
            break;
        }
        case 9: if (r.chance(50)) p->reading = !p->reading; break;
        default:
            if (r.chance(70)) { w.connect(); break; }
            ::close(p->fd), p->fd = -1; // and is gone
            for (auto &q : reqs) if (q.peer == p) { if (q.state == Req::Seen && r.chance(50)) answer(q); q.state = Req::Gone; }
            w.story += std::format(" {} left", p->number);
            ctx().count("connections closed");
        }
        for (int i = int(r.below(6)); i > 0; i--) w.pump(false);
        check();
        for (auto &x : w.peers) if (x->lost && x->fd != -1) ctx().violation("connection-lost", std::format("of client {} after", x->number) + (w.story.size() > 1500 ? w.story.substr(w.story.size() - 1500) : w.story));
    }
    // all end well
    for (auto &p : w.peers) p->reading = true;
    for (auto &q : reqs) if (q.state == Req::Uploading && alive(q)) { q.peer->data(q.stream, q.payload.substr(q.sent.size()), true); q.state = Req::Made; }
    const auto open = [&] { return std::count_if(reqs.begin(), reqs.end(), [&](auto &q) { return q.state < Req::Checked; }); };
    w.settle([&] {
        check();
        for (auto &q : reqs) if (q.state == Req::Seen) answer(q);
        for (auto &x : w.peers) if (x->lost && x->fd != -1) ctx().violation("connection-lost", std::format("of client {} at the end of", x->number) + (w.story.size() > 1500 ? w.story.substr(w.story.size() - 1500) : w.story));
        return open() == 0;
    }, "request-or-reply-lost");
    const auto live = std::size_t(std::count_if(w.peers.begin(), w.peers.end(), [](auto &p) { return p->fd != -1; }));
    w.settle([&] { return w.polled == 1 + live; }, "closed-connection-kept");
    ctx().distinct(vp::mix(r.next(), std::uint64_t(round)));
}
// clients that give up leave nothing behind
static void leak(vp::Rng &r) {
#if defined(__SANITIZE_ADDRESS__)
    World w(r);
    auto &p = w.connect();
    auto fence = [&] { const int f = p.begin("OPTIONS", "/x", {}, true); w.settle([&] { return p.replies.contains(f) && p.replies[f].done; }, "request-or-reply-lost"); p.replies.clear(), p.open.clear(); };
    std::size_t before = 0;
    for (int i = 0; i < 240 && !ctx().anyViolation(); i++) {
        if (i == 40) before = __sanitizer_get_current_allocated_bytes();
        const int kind = int(r.below(3));
        const int s = kind == 0 ? p.begin("PUT", "/svc", {}, false) : p.begin("GET", kind == 1 ? "/svc?a=b" : "/topic?LongPollingIdx=" + std::to_string(i + 1000), {}, true);
        if (kind == 0) p.data(s, std::string(16000, 'x'), false), p.data(s, std::string(16000, 'x'), false);
        fence();
        p.cancel(s), p.cancelled.clear(), p.cancelled.insert(s);
        fence();
        for (auto &m : w.inbox) if (m.command == mdp::Command::Get) { BMessage x; x.clientRequestID = m.clientRequestID; x.command = mdp::Command::Final; std::string d(30000, 'y'); x.data = IoBuffer(d.data(), d.size()); w.server.handleResponse(std::move(x)); }
        w.inbox.clear();
        fence();
    }
    for (int i = 0; i < 1200 && !ctx().anyViolation(); i++) { // the updates that were waited for
        BMessage x; x.command = mdp::Command::Notify; x.topic = URI<>("/topic"); std::string d(i < 1090 ? 10 : 300, 'z'); x.data = IoBuffer(d.data(), d.size());
        w.server.handleNotification(mdp::Topic::fromMdpTopic(URI<>("/topic")), std::move(x));
    }
    if (ctx().anyViolation()) return;
    fence();
    const auto after = __sanitizer_get_current_allocated_bytes();
    VP_CHECK(after < before + 1000000, "cancelled-requests-kept", std::format("200 cancelled requests leave {} bytes behind", after - before));
    ctx().count("cancelled requests without trace", 240);
#endif
}
// a client that reads slower than it is served
static void slow(vp::Rng &r) {
    World w(r);
    auto &p = w.connect(true);
    std::vector<int>         streams;
    std::vector<std::string> bodies;
    for (int i = 0; i < 4; i++) {
        streams.push_back(p.begin("GET", "/svc?n=" + std::to_string(i), {}, true));
        std::string d(300000 + r.below(300000), '\0');
        for (std::size_t k = 0; k < d.size(); k += 997) d[k] = char(r.next());
        bodies.push_back(std::move(d));
    }
    w.settle([&] { return w.inbox.size() == 4; }, "request-lost");
    if (ctx().anyViolation()) return;
    p.reading = false;
    for (auto &m : w.inbox) {
        BMessage x;
        x.command = mdp::Command::Final, x.clientRequestID = m.clientRequestID, x.topic = m.topic;
        const auto n = std::stoul(m.topic.queryParamMap().at("n").value());
        x.data = IoBuffer(bodies[n].data(), bodies[n].size());
        w.server.handleResponse(std::move(x));
    }
    w.story += " slow reader";
    for (int i = 0; i < 300; i++) w.serve();
    p.reading = true;
    w.settle([&] {
        if (p.lost) ctx().violation("connection-lost", "of a client that reads slower than it is served");
        return std::all_of(streams.begin(), streams.end(), [&](int s) { return p.replies.contains(s) && p.replies[s].done; });
    }, "reply-lost");
    for (std::size_t i = 0; i < streams.size() && !ctx().anyViolation(); i++) VP_CHECK(p.replies[streams[i]].body == bodies[i], "wrong-body", std::format("{} instead of {} bytes", p.replies[streams[i]].body.size(), bodies[i].size()));
    ctx().count("slow readers");
}
static void r02(vp::Ctx &c) {
    for (std::uint64_t i = 0; i < vp::scaled(800 / c.shards) && !c.anyViolation(); i++) {
        vp::Rng r(vp::mix(c.seed * 9001 + i, std::uint64_t(c.shard) + 17));
        requests(r, int(i));
        if (i == 0) leak(r), slow(r);
    }
}

// ------------------------------------------------------------------------------------------------ R03
static void polls(vp::Rng &r, int round) {
    World w(r);
    constexpr std::size_t KEPT = 100;
    struct Cache { std::uint64_t first = 0; std::deque<std::string> messages; std::uint64_t next() const { return first + messages.size(); } };
    std::vector<std::pair<std::string, std::string>> topics{ { "/a", "" }, { "/a", "ctx=1" }, { "/a/b", "" }, { "/b", "ctx=FAIR.SELECTOR.C%3D1" }, { "/b", "" } };
    auto uri = [&](int t) { return topics[std::size_t(t)].first + (topics[std::size_t(t)].second.empty() ? "" : "?" + topics[std::size_t(t)].second); };
    std::map<int, Cache> caches;
    struct Poll { Peer *peer; int stream, topic; std::uint64_t index; };
    std::vector<Poll>    waiting;
    int                  serial = 0;
    for (int i = int(r.range(1, 4)); i > 0; i--) w.connect();
    auto fence = [&](Peer &p) {
        const int f = p.begin("OPTIONS", "/x", {}, true);
        w.settle([&] { return p.replies.contains(f) && p.replies[f].done; }, "fence-not-answered");
        p.replies.erase(f);
    };
    auto isUpdate = [&](Peer &p, int s, int t, std::uint64_t i, const std::string &data) {
        auto it = p.replies.find(s);
        const auto what = std::format(" (poll of {} index {}, client {})", uri(t), i, p.number);
        if (it == p.replies.end() || !it->second.done) { ctx().violation("update-not-delivered", w.story.substr(w.story.size() > 800 ? w.story.size() - 800 : 0) + what); return; }
        VP_CHECK(it->second.get(":status") == "200" && it->second.body == data, "wrong-update", std::format("{} {}.. instead of {}..", it->second.get(":status"), vp::esc(it->second.body, 40), vp::esc(data, 40)) + what + w.story.substr(w.story.size() > 800 ? w.story.size() - 800 : 0));
        VP_CHECK(it->second.get("x-opencmw-long-polling-idx") == std::to_string(i), "wrong-index", it->second.get("x-opencmw-long-polling-idx") + what);
        VP_CHECK(it->second.get("content-length") == std::to_string(data.size()), "wrong-length", what);
        p.replies.erase(it);
        ctx().count("updates delivered");
    };
    auto poll = [&](Peer &p, int t, const std::string &index) {
        std::string path = uri(t);
        if (r.chance(15)) path = topics[std::size_t(t)].first + "?SubscriptionContext=" + enc(uri(t)) + "&LongPollingIdx=" + index;
        else path += (path.find('?') == std::string::npos ? "?" : "&") + std::string("LongPollingIdx=") + index;
        const int s = p.begin("GET", path, {}, true);
        w.story += std::format(" {}:{} {}#{}", p.number, s, t, index);
        fence(p);
        if (ctx().anyViolation()) return s;
        const bool isNew = !caches.contains(t);
        const bool malformed = index != "Next" && index != "Last" && !isdigit(static_cast<unsigned char>(index[0]));
        if (isNew && malformed && w.inbox.empty()) { // refused without any effect: the next poll has to subscribe
            if (!w.settle([&] { return p.replies.contains(s) && p.replies[s].done; }, "poll-not-answered")) return s;
            auto it = p.replies.find(s);
            VP_CHECK(it != p.replies.end() && it->second.done && it->second.get(":status") >= "400", "malformed-index-accepted", index);
            ctx().count("malformed");
            return s;
        }
        auto      &c     = caches[t];
        VP_CHECK(w.inbox.size() == (isNew ? 1u : 0u), "wrong-subscription", std::format("{} messages for {} poll of {}", w.inbox.size(), isNew ? "the first" : "a further", path) + w.story);
        if (isNew && w.inbox.size() == 1) VP_CHECK(w.inbox[0].command == mdp::Command::Subscribe && mdp::Topic::fromMdpTopic(w.inbox[0].topic).toZmqTopic() == mdp::Topic::fromMdpTopic(URI<>(uri(t))).toZmqTopic(), "wrong-subscription", std::string(w.inbox[0].topic.str()) + " instead of " + uri(t));
        w.inbox.clear();
        auto answered   = [&] { return w.settle([&] { return p.replies.contains(s) && p.replies[s].done; }, "poll-not-answered"); };
        auto redirected = [&](std::uint64_t to) {
            if (!answered()) return;
            auto it = p.replies.find(s);
            if (it == p.replies.end() || !it->second.done) { ctx().violation("poll-not-answered", path + w.story); return; }
            VP_CHECK(it->second.get(":status") == "302", "no-redirection", it->second.get(":status") + " for " + path);
            const URI<> l(it->second.get("location"));
            auto        q = l.queryParamMap();
            VP_CHECK(q.contains("LongPollingIdx") && q["LongPollingIdx"] == std::to_string(to), "wrong-redirection", it->second.get("location") + " instead of " + std::to_string(to) + w.story);
            q.erase("LongPollingIdx");
            VP_CHECK(l.path().value_or("") == topics[std::size_t(t)].first && q == URI<>(uri(t)).queryParamMap(), "wrong-redirection", it->second.get("location") + " for " + path);
            p.replies.erase(it);
            ctx().count("redirections");
        };
        if (index == "Next") redirected(c.next());
        else if (index == "Last") redirected(c.messages.empty() ? c.next() : c.next() - 1);
        else if (std::uint64_t i = 0; std::from_chars(index.data(), index.data() + index.size(), i).ec != std::errc()) {
            if (!answered()) return s;
            auto it = p.replies.find(s);
            VP_CHECK(it != p.replies.end() && it->second.done && it->second.get(":status") >= "400", "malformed-index-accepted", index);
            ctx().count("malformed");
        } else if (i < c.first) redirected(c.next());
        else if (i < c.next()) w.settle([&] { return p.replies.contains(s) && p.replies[s].done; }, "update-not-delivered") && (isUpdate(p, s, t, i, c.messages[i - c.first]), true);
        else { VP_CHECK(!p.replies.contains(s), "update-from-the-future", path + w.story); waiting.push_back({ &p, s, t, i }); }
        return s;
    };
    auto publish = [&](int t, int n) {
        w.story += std::format(" {}+{}", t, n);
        std::vector<Poll> due;
        std::vector<std::string> data;
        for (int i = 0; i < n; i++) {
            auto     d = std::format("{} {} ", t, serial++) + (r.chance(5) ? r.bytes(10000, 60000) : r.bytes(0, 100));
            BMessage m;
            m.command = mdp::Command::Notify, m.topic = URI<>(uri(t)), m.serviceName = topics[std::size_t(t)].first, m.data = IoBuffer(d.data(), d.size());
            w.server.handleNotification(mdp::Topic::fromMdpTopic(URI<>(uri(t))), std::move(m));
            ctx().count("updates");
            if (!caches.contains(t)) continue; // nobody has asked yet
            auto &c = caches[t];
            if (c.messages.size() == KEPT) c.messages.pop_front(), c.first++;
            c.messages.push_back(d);
            for (auto it = waiting.begin(); it != waiting.end();) if (it->topic == t && it->index == c.next() - 1) { due.push_back(*it), data.push_back(d); it = waiting.erase(it); } else ++it;
        }
        for (std::size_t i = 0; i < due.size() && !ctx().anyViolation(); i++) {
            w.settle([&] { auto it = due[i].peer->replies.find(due[i].stream); return it != due[i].peer->replies.end() && it->second.done; }, "update-not-delivered");
            if (!ctx().anyViolation()) isUpdate(*due[i].peer, due[i].stream, t, due[i].index, data[i]);
        }
    };
    for (int step = int(r.range(20, 100)); step > 0 && !ctx().anyViolation(); step--) {
        auto     &p = *w.peers[r.below(w.peers.size())];
        const int t = int(r.below(topics.size()));
        const auto next = caches.contains(t) ? caches[t].next() : 0;
        switch (r.below(10)) {
        case 0: poll(p, t, "Next"); break;
        case 1: poll(p, t, "Last"); break;
        case 2: poll(p, t, std::to_string(next)); break;
        case 3: poll(p, t, std::to_string(next + r.below(4))); break;
        case 4: if (next) poll(p, t, std::to_string(next - 1 - r.below(std::min<std::uint64_t>(next, 120)))); break;
        case 5: poll(p, t, r.pick(std::vector<std::string>{ "abc", "-1", "next", "99999999999999999999999", "x1" })); break;
        case 6: { // a client that follows: each update once, in order
            std::uint64_t at = next;
            for (int k = int(r.range(1, 12)); k > 0 && !ctx().anyViolation(); k--) { if (r.chance(50)) { const auto before = waiting.size(); poll(p, t, std::to_string(at)); if (waiting.size() > before) publish(t, 1); at++; } else if (caches.contains(t)) publish(t, int(r.range(1, 3))); }
            ctx().count("followers");
            break;
        }
        case 7: publish(t, r.chance(10) ? int(r.range(90, 230)) : int(r.range(1, 8))); break;
        case 8: { // gives up waiting
            if (waiting.empty()) break;
            const auto k = r.below(waiting.size());
            waiting[k].peer->cancel(waiting[k].stream);
            fence(*waiting[k].peer);
            waiting.erase(waiting.begin() + long(k));
            break;
        }
        default: publish(t, 1);
        }
        for (auto &x : waiting) if (x.peer->replies.contains(x.stream)) ctx().violation("update-out-of-thin-air", std::format("poll of {} index {}", uri(x.topic), x.index) + w.story);
        for (auto &x : w.peers) if (x->lost) ctx().violation("connection-lost", w.story);
    }
    while (!waiting.empty() && !ctx().anyViolation()) publish(waiting[0].topic, 1);
    ctx().distinct(vp::mix(r.next(), std::uint64_t(round)));
}
static void r03(vp::Ctx &c) {
    for (std::uint64_t i = 0; i < vp::scaled(800 / c.shards) && !c.anyViolation(); i++) {
        vp::Rng r(vp::mix(c.seed * 11003 + i, std::uint64_t(c.shard) + 19));
        polls(r, int(i));
    }
}
void vp_main(vp::Ctx &c) {
    std::signal(SIGPIPE, SIG_IGN); // as the broker does
    if (c.mode == "r02") r02(c);
    if (c.mode == "r03") r03(c);
}
