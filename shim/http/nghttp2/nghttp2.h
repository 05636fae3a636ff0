// Stand-in for nghttp2 (not installed): sessions of a server, with the framing of RFC 9113 and header blocks that are a
// plain list of names and values instead of HPACK. As in nghttp2, header parts flagged NO_COPY and the data provider are
// used only when the frame is sent, at most one frame is handed out per mem_send2 call, a response to a stream that
// is gone is accepted and reported by frame_not_send, and the stream is closed after both ends have finished it.
#ifndef VP_SHIM_NGHTTP2_H
#define VP_SHIM_NGHTTP2_H
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <string>
#include <sys/types.h>
#include <vector>
typedef ptrdiff_t nghttp2_ssize;
#define NGHTTP2_NV_FLAG_NONE (0)
#define NGHTTP2_NV_FLAG_NO_COPY_NAME (2)
#define NGHTTP2_NV_FLAG_NO_COPY_VALUE (4)
#define NGHTTP2_DATA_FLAG_NONE (0)
#define NGHTTP2_DATA_FLAG_EOF (1)
#define NGHTTP2_FLAG_NONE (0)
#define NGHTTP2_FLAG_END_STREAM (1)
#define NGHTTP2_FLAG_END_HEADERS (4)
#define NGHTTP2_DATA (0)
#define NGHTTP2_HEADERS (1)
#define NGHTTP2_RST_STREAM (3)
#define NGHTTP2_SETTINGS (4)
#define NGHTTP2_SETTINGS_MAX_CONCURRENT_STREAMS (3)
#define NGHTTP2_ERR_INVALID_ARGUMENT (-501)
#define NGHTTP2_ERR_STREAM_CLOSED (-510)
#define NGHTTP2_ERR_TEMPORAL_CALLBACK_FAILURE (-521)
#define NGHTTP2_ERR_CALLBACK_FAILURE (-902)
#define NGHTTP2_ERR_BAD_CLIENT_MAGIC (-903)
#define NGHTTP2_INTERNAL_ERROR (2)
#define NGHTTP2_NO_ERROR (0)
struct nghttp2_session;
struct nghttp2_nv { uint8_t *name, *value; size_t namelen, valuelen; uint8_t flags; };
struct nghttp2_vec { uint8_t *base; size_t len; };
struct nghttp2_rcbuf { std::string s; };
inline nghttp2_vec nghttp2_rcbuf_get_buf(nghttp2_rcbuf *b) { return { reinterpret_cast<uint8_t *>(b->s.data()), b->s.size() }; }
struct nghttp2_frame_hd { size_t length; int32_t stream_id; uint8_t type, flags, reserved; };
union nghttp2_frame { nghttp2_frame_hd hd; };
union nghttp2_data_source { int fd; void *ptr; };
typedef nghttp2_ssize (*nghttp2_data_source_read_callback2)(nghttp2_session *, int32_t, uint8_t *, size_t, uint32_t *, nghttp2_data_source *, void *);
struct nghttp2_data_provider2 { nghttp2_data_source source; nghttp2_data_source_read_callback2 read_callback; };
struct nghttp2_settings_entry { int32_t settings_id; uint32_t value; };
struct nghttp2_session_callbacks {
    int (*frame_recv)(nghttp2_session *, const nghttp2_frame *, void *) = nullptr;
    int (*frame_send)(nghttp2_session *, const nghttp2_frame *, void *) = nullptr;
    int (*frame_not_send)(nghttp2_session *, const nghttp2_frame *, int, void *) = nullptr;
    int (*data_chunk)(nghttp2_session *, uint8_t, int32_t, const uint8_t *, size_t, void *) = nullptr;
    int (*stream_close)(nghttp2_session *, int32_t, uint32_t, void *) = nullptr;
    int (*header)(nghttp2_session *, const nghttp2_frame *, nghttp2_rcbuf *, nghttp2_rcbuf *, uint8_t, void *) = nullptr;
    int (*invalid_frame)(nghttp2_session *, const nghttp2_frame *, int, void *) = nullptr;
    int (*error)(nghttp2_session *, int, const char *, size_t, void *) = nullptr;
};
namespace vph2 {
inline void put(std::string &o, uint64_t v, int n) { while (n-- > 0) o += char((v >> (8 * n)) & 0xff); }
inline uint64_t get(const char *p, int n) { uint64_t v = 0; for (int i = 0; i < n; i++) v = v << 8 | uint8_t(p[i]); return v; }
inline std::string frame(uint8_t type, uint8_t flags, int32_t stream, const std::string &payload) {
    std::string o;
    put(o, payload.size(), 3), put(o, type, 1), put(o, flags, 1), put(o, uint32_t(stream), 4);
    return o + payload;
}
inline void field(std::string &o, const std::string &n, const std::string &v) { put(o, n.size(), 2), o += n, put(o, v.size(), 4), o += v; }
struct Part { std::string own; const uint8_t *p = nullptr; size_t n = 0; bool borrowed = false;
    std::string str() const { return borrowed ? std::string(reinterpret_cast<const char *>(p), n) : own; } };
struct Response { int32_t stream; std::vector<std::pair<Part, Part>> headers; bool hasBody = false; nghttp2_data_provider2 body{}; bool headersSent = false; };
}
struct nghttp2_session {
    nghttp2_session_callbacks cb;
    void                     *user = nullptr;
    std::string               in, out;
    std::map<int32_t, bool>   streams; // open ones; true: the peer has finished
    int32_t                   lastStream = 0;
    std::deque<vph2::Response> queue;
    std::deque<std::string>   control;
    void close(int32_t id, uint32_t code) { if (streams.erase(id)) cb.stream_close(this, id, code, user); }
    nghttp2_ssize recv(const uint8_t *data, size_t n) {
        in.append(reinterpret_cast<const char *>(data), n);
        while (in.size() >= 9) {
            const size_t len = vph2::get(in.data(), 3);
            if (in.size() < 9 + len) break;
            nghttp2_frame f{};
            f.hd = { len, int32_t(vph2::get(in.data() + 5, 4)), uint8_t(in[3]), uint8_t(in[4]), 0 };
            const std::string payload = in.substr(9, len);
            in.erase(0, 9 + len);
            const int32_t id  = f.hd.stream_id;
            const bool    end = f.hd.flags & NGHTTP2_FLAG_END_STREAM;
            switch (f.hd.type) {
            case NGHTTP2_HEADERS: {
                if (id <= lastStream) { if (cb.invalid_frame) cb.invalid_frame(this, &f, -505, user); continue; }
                lastStream = id, streams[id] = false;
                for (size_t i = 0; i + 2 <= payload.size();) {
                    nghttp2_rcbuf name, value;
                    size_t k = vph2::get(&payload[i], 2); name.s = payload.substr(i + 2, k), i += 2 + k;
                    k = vph2::get(&payload[i], 4); value.s = payload.substr(i + 4, k), i += 4 + k;
                    if (cb.header(this, &f, &name, &value, 0, user) != 0) return NGHTTP2_ERR_CALLBACK_FAILURE;
                }
                break;
            }
            case NGHTTP2_DATA:
                if (!streams.contains(id) || streams[id]) continue; // ignored
                if (len && cb.data_chunk(this, f.hd.flags, id, reinterpret_cast<const uint8_t *>(payload.data()), len, user) != 0) return NGHTTP2_ERR_CALLBACK_FAILURE;
                break;
            case NGHTTP2_RST_STREAM:
                if (cb.frame_recv(this, &f, user) != 0) return NGHTTP2_ERR_CALLBACK_FAILURE;
                close(id, uint32_t(vph2::get(payload.data(), 4)));
                continue;
            default: continue;
            }
            if (end) streams[id] = true;
            if (cb.frame_recv(this, &f, user) != 0) return NGHTTP2_ERR_CALLBACK_FAILURE;
        }
        return nghttp2_ssize(n);
    }
    bool wantWrite() const { return !queue.empty() || !control.empty(); }
    nghttp2_ssize send(const uint8_t **data) { // at most one frame
        out.clear();
        if (!control.empty()) { out = control.front(), control.pop_front(); *data = reinterpret_cast<const uint8_t *>(out.data()); return nghttp2_ssize(out.size()); }
        if (queue.empty()) return 0;
        auto &r  = queue.front();
        auto  it = streams.find(r.stream);
        nghttp2_frame f{};
        f.hd.stream_id = r.stream;
        if (it == streams.end()) { // closed by the peer
            f.hd.type = r.headersSent ? NGHTTP2_DATA : NGHTTP2_HEADERS, f.hd.flags = NGHTTP2_FLAG_END_HEADERS;
            const bool headersSent = r.headersSent;
            queue.pop_front();
            if (!headersSent) cb.frame_not_send(this, &f, NGHTTP2_ERR_STREAM_CLOSED, user);
            return 0;
        }
        const int32_t id = r.stream;
        std::string   payload;
        bool          last = false;
        if (!r.headersSent) {
            for (auto &[n, v] : r.headers) vph2::field(payload, n.str(), v.str());
            r.headersSent = true, last = !r.hasBody;
            f.hd.type = NGHTTP2_HEADERS, f.hd.flags = uint8_t(NGHTTP2_FLAG_END_HEADERS | (last ? NGHTTP2_FLAG_END_STREAM : 0));
        } else {
            std::vector<uint8_t> buf(16384);
            uint32_t             flags = 0;
            const auto           n     = r.body.read_callback(this, id, buf.data(), buf.size(), &flags, &r.body.source, user);
            if (n == NGHTTP2_ERR_TEMPORAL_CALLBACK_FAILURE) {
                queue.pop_front();
                std::string code; vph2::put(code, NGHTTP2_INTERNAL_ERROR, 4);
                out = vph2::frame(NGHTTP2_RST_STREAM, 0, id, code);
                close(id, NGHTTP2_INTERNAL_ERROR);
                *data = reinterpret_cast<const uint8_t *>(out.data());
                return nghttp2_ssize(out.size());
            }
            if (n < 0 || size_t(n) > buf.size()) return NGHTTP2_ERR_CALLBACK_FAILURE;
            payload.assign(reinterpret_cast<char *>(buf.data()), size_t(n));
            last = flags & NGHTTP2_DATA_FLAG_EOF;
            f.hd.type = NGHTTP2_DATA, f.hd.flags = last ? NGHTTP2_FLAG_END_STREAM : 0;
        }
        f.hd.length = payload.size();
        out = vph2::frame(f.hd.type, f.hd.flags, id, payload);
        if (last) queue.pop_front();
        else if (queue.size() > 1) { queue.push_back(std::move(queue.front())), queue.pop_front(); } // streams take turns
        cb.frame_send(this, &f, user);
        if (last && streams[id]) close(id, NGHTTP2_NO_ERROR);
        *data = reinterpret_cast<const uint8_t *>(out.data());
        return nghttp2_ssize(out.size());
    }
};
inline int nghttp2_session_callbacks_new(nghttp2_session_callbacks **c) { *c = new nghttp2_session_callbacks; return 0; }
inline void nghttp2_session_callbacks_del(nghttp2_session_callbacks *c) { delete c; }
#define VP_SET(name, member) inline void nghttp2_session_callbacks_set_##name(nghttp2_session_callbacks *c, decltype(nghttp2_session_callbacks::member) f) { c->member = f; }
VP_SET(on_frame_recv_callback, frame_recv) VP_SET(on_frame_send_callback, frame_send) VP_SET(on_frame_not_send_callback, frame_not_send) VP_SET(on_data_chunk_recv_callback, data_chunk) VP_SET(on_stream_close_callback, stream_close) VP_SET(on_header_callback2, header) VP_SET(on_invalid_frame_recv_callback, invalid_frame) VP_SET(error_callback2, error)
#undef VP_SET
inline int nghttp2_session_server_new(nghttp2_session **s, const nghttp2_session_callbacks *c, void *user) { *s = new nghttp2_session{ *c, user, {}, {}, {}, 0, {}, {} }; return 0; }
inline void nghttp2_session_del(nghttp2_session *s) { delete s; }
inline int nghttp2_session_want_read(nghttp2_session *) { return 1; }
inline int nghttp2_session_want_write(nghttp2_session *s) { return s->wantWrite(); }
inline nghttp2_ssize nghttp2_session_mem_recv2(nghttp2_session *s, const uint8_t *d, size_t n) {
    if (n > (size_t(1) << 40)) { std::fprintf(stderr, "nghttp2_session_mem_recv2 called with %zu bytes\n", n); std::abort(); }
    return s->recv(d, n);
}
inline nghttp2_ssize nghttp2_session_mem_send2(nghttp2_session *s, const uint8_t **d) { return s->send(d); }
inline const char *nghttp2_strerror(int) { return "error"; }
inline int nghttp2_submit_settings(nghttp2_session *s, uint8_t, const nghttp2_settings_entry *, size_t) { s->control.push_back(vph2::frame(NGHTTP2_SETTINGS, 0, 0, "")); return 0; }
inline int nghttp2_submit_response2(nghttp2_session *s, int32_t id, const nghttp2_nv *nva, size_t n, const nghttp2_data_provider2 *prd) {
    if (id <= 0) return NGHTTP2_ERR_INVALID_ARGUMENT;
    vph2::Response r;
    r.stream = id;
    auto part = [](const uint8_t *p, size_t len, bool borrowed) { vph2::Part x; x.borrowed = borrowed, x.p = p, x.n = len; if (!borrowed) x.own.assign(reinterpret_cast<const char *>(p), len); return x; };
    for (size_t i = 0; i < n; i++) r.headers.emplace_back(part(nva[i].name, nva[i].namelen, nva[i].flags & NGHTTP2_NV_FLAG_NO_COPY_NAME), part(nva[i].value, nva[i].valuelen, nva[i].flags & NGHTTP2_NV_FLAG_NO_COPY_VALUE));
    if (prd && prd->read_callback) r.hasBody = true, r.body = *prd;
    s->queue.push_back(std::move(r));
    return 0;
}
#endif
