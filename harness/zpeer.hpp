// Raw peers that speak MDP frame by frame to the code under test (over the libzmq stand-in): they do not use
// the library's own (de-)framing, so that they are an independent view of what is on the wire.
#pragma once
#include "vp.hpp"
#include <optional>
#include <utility>
#include <zmq.h>

namespace zp {
using Frames = std::vector<std::string>;
enum Cmd : char { Invalid, Get, Set, Partial, Final, Ready, Disconnect, Subscribe, Unsubscribe, Notify, Heartbeat };
inline const char *cmdName(int c) {
    static const char *n[] = { "Invalid", "Get", "Set", "Partial", "Final", "Ready", "Disconnect", "Subscribe", "Unsubscribe", "Notify", "Heartbeat" };
    return c >= 0 && c <= 10 ? n[c] : "?";
}
inline const std::string C03 = "MDPC03", W03 = "MDPW03";

struct M { // one MDP message
    std::string src, proto, service, reqId, topic, data, error, rbac;
    char        cmd = 0;
    Frames      frames(bool withSrc = false) const {
        Frames f;
        if (withSrc) f.push_back(src);
        for (auto &s : { proto, std::string(1, cmd), service, reqId, topic, data, error, rbac }) f.push_back(s);
        return f;
    }
    static std::optional<M> from(const Frames &f, bool withSrc = false) {
        const std::size_t o = withSrc ? 1 : 0;
        if (f.size() != 8 + o || f[o + 1].size() != 1) return {};
        M m;
        if (withSrc) m.src = f[0];
        m.proto = f[o], m.cmd = f[o + 1][0], m.service = f[o + 2], m.reqId = f[o + 3], m.topic = f[o + 4], m.data = f[o + 5], m.error = f[o + 6], m.rbac = f[o + 7];
        return m;
    }
    std::string str() const { return proto + " " + cmdName(cmd) + " service='" + service + "' id='" + reqId + "' topic='" + topic + "' data='" + data.substr(0, 60) + "' error='" + error.substr(0, 80) + "' rbac='" + rbac + "' src='" + src + "'"; }
};

struct Peer {
    void *s = nullptr;
    Peer() = default;
    Peer(void *ctx, int type, const char *endpoint, bool bind = false) : s(zmq_socket(ctx, type)) {
        if ((bind ? zmq_bind(s, endpoint) : zmq_connect(s, endpoint)) != 0) std::abort();
    }
    Peer(Peer &&o) noexcept : s(std::exchange(o.s, nullptr)) {}
    Peer &operator=(Peer &&o) noexcept { std::swap(s, o.s); return *this; }
    ~Peer() { close(); }
    void close() { if (s) zmq_close(s); s = nullptr; }
    void send(const Frames &f) {
        for (std::size_t i = 0; i < f.size(); i++) {
            zmq_msg_t m;
            auto      copy = new std::string(f[i]);
            zmq_msg_init_data(&m, copy->data(), copy->size(), [](void *, void *h) { delete static_cast<std::string *>(h); }, copy);
            if (zmq_msg_send(&m, s, ZMQ_DONTWAIT | (i + 1 < f.size() ? ZMQ_SNDMORE : 0)) < 0) { zmq_msg_close(&m); return; }
        }
    }
    void send(const M &m) { send(m.frames()); }
    std::optional<Frames> recv() {
        Frames f;
        while (true) {
            zmq_msg_t m;
            zmq_msg_init(&m);
            if (zmq_msg_recv(&m, s, ZMQ_DONTWAIT) < 0) { zmq_msg_close(&m); return {}; }
            f.emplace_back(static_cast<char *>(zmq_msg_data(&m)), zmq_msg_size(&m));
            zmq_msg_close(&m);
            int         more = 0;
            std::size_t n    = sizeof more;
            zmq_getsockopt(s, ZMQ_RCVMORE, &more, &n);
            if (!more) return f;
        }
    }
};
} // namespace zp
