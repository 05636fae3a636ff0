// R01: serving files and embedded resources
#include <cassert>
#include <cstring>
#include <filesystem>
#include <format>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <span>
#include <thread>
#include "vp.hpp"
#include <majordomo/Rest.hpp>

using vp::ctx;
using namespace opencmw;
using namespace opencmw::majordomo::rest;
namespace fs = std::filesystem;

struct Scratch {
    fs::path dir;
    Scratch() { std::string t = (fs::temp_directory_path() / "vpfilXXXXXX").string(); dir = mkdtemp(t.data()); }
    ~Scratch() { fs::remove_all(dir); }
};
static const char *const SECRET = "SENTINEL-outside-the-root";
static std::string expectedType(const std::string &p) {
    auto e = [&](const char *x) { return p.ends_with(x); };
    return e(".html") ? "text/html" : e(".css") ? "text/css" : e(".js") ? "application/javascript" : e(".png") ? "image/png" : e(".jpg") || e(".jpeg") ? "image/jpeg" : e(".wasm") ? "application/wasm" : "text/plain";
}
static std::vector<std::string> headers(const Response &r, std::string_view name) {
    std::vector<std::string> v;
    for (auto &[k, x] : r.headers) if (k == name) v.push_back(x);
    return v;
}
struct Body { std::string data; bool failed = false; int calls = 0; };
static Body drain(const Response &resp, vp::Rng &r, std::size_t limit) { // as the server does: until there is no more
    Body b;
    if (resp.bodyReader) {
        for (bool more = true; more;) {
            std::vector<std::uint8_t> buf(r.chance(20) ? 1 + r.below(3) : 1 + r.below(40000));
            auto s = resp.bodyReader(std::span(buf));
            b.calls++;
            if (!s) { b.failed = true; break; }
            if (s->bytesWritten > buf.size()) { ctx().violation("body-overrun", std::to_string(s->bytesWritten)); break; }
            b.data.append(reinterpret_cast<char *>(buf.data()), s->bytesWritten);
            more = s->hasMore;
            if (b.data.size() > limit + 100000 || b.calls > 200000) { ctx().violation("body-without-end", std::to_string(b.data.size())); break; }
        }
    } else if (resp.bodyView.size()) b.data.assign(reinterpret_cast<const char *>(resp.bodyView.data()), resp.bodyView.size());
    else b.data.assign(reinterpret_cast<const char *>(resp.body.data()), resp.body.size());
    return b;
}
static std::string content(vp::Rng &r, std::size_t threshold) {
    switch (r.below(6)) {
    case 0: return r.bytes(0, 3);
    case 1: return r.bytes(threshold > 2 ? threshold - 2 : threshold, threshold + 2);
    case 2: return r.bytes(4090, 4100);
    case 3: { auto s = r.bytes(1, 300); std::string x; for (int i = int(r.range(1, 300)); i > 0; i--) x += s; return x; }
    default: return r.bytes(1, 5000);
    }
}
static const char *const EXT[] = { ".html", ".css", ".js", ".png", ".jpg", ".jpeg", ".wasm", ".txt", "", ".html.bak", ".JS", ".tar.gz" };
static std::string name(vp::Rng &r) { std::string n = r.str("abcXYZ019_-~ ", 1, 8); if (r.chance(8)) n = "..." + n; if (r.chance(8)) n += ".."; return n; }

static void site(vp::Rng &r, int round) {
    Scratch           s;
    const fs::path    root = s.dir / "outer" / "root";
    const std::size_t threshold = r.chance(30) ? 1 + r.below(100) : 1 + r.below(20000);
    fs::create_directories(root);
    std::map<std::string, std::string> files; // below the root
    std::vector<std::string> dirs{ "" };
    for (int i = int(r.range(0, 6)); i > 0; i--) { auto d = dirs[r.below(dirs.size())] + name(r); if (fs::exists(root / d)) continue; fs::create_directory(root / d); dirs.push_back(d + "/"); }
    for (int i = int(r.range(1, 10)); i > 0; i--) {
        auto f = dirs[r.below(dirs.size())] + name(r) + EXT[r.below(12)];
        if (fs::exists(root / f)) continue;
        auto d = content(r, threshold);
        std::ofstream(root / f, std::ios::binary) << d;
        files[f] = d;
    }
    for (auto p : { s.dir / "secret.txt", s.dir / "outer" / "secret.txt", s.dir / "outer" / "root2.txt" }) std::ofstream(p) << SECRET;
    fs::create_directory(s.dir / "outer" / "root-sibling");
    std::ofstream(s.dir / "outer" / "root-sibling" / "secret.txt") << SECRET;
    const std::string prefix = r.chance(50) ? "/files/" : r.chance(50) ? "/files" : "/a/b/c/";
    std::vector<std::pair<std::string, std::string>> extra;
    for (int i = int(r.below(3)); i > 0; i--) extra.emplace_back("x-extra-" + std::to_string(i), r.str("abc", 1, 9));
    auto h = fileSystemHandler(prefix + "*", prefix, r.chance(50) ? root : fs::path(root.string() + "/"), extra, threshold);
    VP_CHECK(h.method == "GET" && h.path == prefix + "*", "handler-address", h.method + " " + h.path);
    auto copy = h.handler; // the server copies the handlers

    auto ask = [&](const std::string &p) -> Response {
        ctx().crumb("request", vp::esc(p, 4000));
        try {
            return (r.chance(50) ? copy : h.handler)(Request{ "GET", p, {} });
        } catch (...) {
            ctx().violation("request-throws", "the handler throws for " + vp::esc(p, 300));
            return {};
        }
    };
    auto good = [&](const std::string &p, const std::string &d) {
        auto resp = ask(p);
        auto b    = drain(resp, r, d.size());
        VP_CHECK(resp.code == 200 && !b.failed, "file-not-served", vp::esc(p, 300) + " code " + std::to_string(resp.code));
        VP_CHECK(b.data == d, "wrong-content", vp::esc(p, 300) + ": " + std::to_string(b.data.size()) + " instead of " + std::to_string(d.size()) + " bytes, threshold " + std::to_string(threshold));
        VP_CHECK(headers(resp, "content-length") == std::vector<std::string>{ std::to_string(d.size()) }, "wrong-length", vp::esc(p, 300));
        VP_CHECK(headers(resp, "content-type") == std::vector<std::string>{ expectedType(p) }, "wrong-type", vp::esc(p, 300));
        for (auto &[k, v] : extra) VP_CHECK(headers(resp, k) == std::vector<std::string>{ v }, "extra-header-missing", k + " of " + vp::esc(p, 300) + ", " + std::to_string(d.size()) + " bytes, threshold " + std::to_string(threshold));
        ctx().count(resp.bodyReader ? "streamed" : "mapped");
    };
    auto bad = [&](const std::string &p, const char *what) {
        auto resp = ask(p);
        if (ctx().anyViolation()) return;
        auto b = drain(resp, r, 100000);
        VP_CHECK(b.data.find(SECRET) == std::string::npos, "file-outside-served", vp::esc(p, 400));
        VP_CHECK(resp.code >= 400 && resp.code < 600, "no-file-no-error", std::string(what) + " " + vp::esc(p, 300) + " code " + std::to_string(resp.code));
        ctx().count(what);
    };
    std::vector<std::string> names;
    for (auto &[f, d] : files) names.push_back(f);
    std::vector<std::pair<Response, std::string>> later; // replies that are sent later, interleaved
    for (int step = int(r.range(10, 60)); step > 0 && !ctx().anyViolation(); step--) {
        const auto &f   = names[r.below(names.size())];
        const auto &dir = dirs[r.below(dirs.size())];
        std::string up;
        for (int i = int(r.range(1, 6)); i > 0; i--) up += "../";
        const std::string secret = r.pick(std::vector<std::string>{ "secret.txt", "outer/secret.txt", "root2.txt", "root-sibling/secret.txt", "outer/root-sibling/secret.txt", s.dir.filename().string() + "/secret.txt" });
        const std::string p = prefix.ends_with("/") ? prefix : prefix + "/";
        switch (r.below(9)) {
        case 0: case 1: case 2: good(p + (r.chance(10) ? std::string(r.below(3), '/') : "") + f, files[f]); break;
        case 3: bad(p + up + secret, "traversals"); break;
        case 4: bad(p + dir + up + secret, "traversals"); bad(p + dir + "./" + up + "./" + secret, "traversals"); bad(p + "nonexistent/" + up + secret, "traversals"); break;
        case 5: { // the very file, by its full name, in several spellings
            const auto abs = (s.dir / "secret.txt").string();
            bad(p + abs, "absolute"), bad(abs, "absolute"), bad(p + "/" + abs, "absolute"), bad(p + dir + abs, "absolute"), bad(p + "." + abs, "absolute");
            break;
        }
        case 6: bad(p + dir, "directories"), bad(p + dir + ".", "directories"), bad(dir.empty() ? p : p + dir.substr(0, dir.size() - 1), "directories"); bad(p + ".", "directories"), bad(p + "..", "directories"), bad(p + dir + "..", "directories"); break;
        case 7: {
            std::string q = r.chance(50) ? r.str("/._-abc:%?&", 0, 30) : std::string(r.range(200, 9000), 'x');
            if (r.chance(20)) { q.clear(); for (int i = int(r.range(1, 3000)); i > 0; i--) q += "a/"; }
            if (q.find("..") != std::string::npos || q.find("./") != std::string::npos) break;
            std::string n = q; while (n.starts_with("/")) n.erase(0, 1);
            if (files.contains(n)) break;
            bad(p + q + "?", "missing");
            break;
        }
        default: later.emplace_back(ask(p + f), files[f]); break;
        }
        if (later.size() > 1 && r.chance(30)) {
            std::swap(later[r.below(later.size())], later.back());
            auto b = drain(later.back().first, r, later.back().second.size());
            VP_CHECK(b.data == later.back().second, "wrong-content", "of a reply that was sent later");
            later.pop_back(), ctx().count("interleaved replies");
        }
        ctx().distinct(vp::mix(std::uint64_t(round) * 100 + std::uint64_t(step), r.next()));
    }
    for (auto &[resp, d] : later) { auto b = drain(resp, r, d.size()); VP_CHECK(b.data == d, "wrong-content", "of a reply that was sent later"); }
}
static void embedded(vp::Rng &r) {
    auto &m = cmrc::detail::files();
    m.clear();
    const std::string vprefix = r.chance(50) ? "assets/" : "";
    for (int i = int(r.range(1, 8)); i > 0; i--) m[vprefix + name(r) + EXT[r.below(12)]] = r.bytes(0, 3000);
    m["other/secret.txt"] = SECRET;
    const std::string prefix = r.chance(50) ? "/assets/" : "/x/";
    auto h = cmrcHandler(prefix + "*", prefix, std::make_shared<cmrc::embedded_filesystem>(), vprefix);
    for (auto &[f, d] : m) {
        if (!f.starts_with(vprefix)) continue;
        const auto p    = prefix + f.substr(vprefix.size());
        auto       resp = h.handler(Request{ "GET", p, {} });
        auto       b    = drain(resp, r, d.size());
        VP_CHECK(resp.code == 200 && b.data == d, "wrong-content", "embedded " + vp::esc(p, 200));
        VP_CHECK(headers(resp, "content-length") == std::vector<std::string>{ std::to_string(d.size()) } && headers(resp, "content-type") == std::vector<std::string>{ expectedType(p) }, "wrong-header", "embedded " + vp::esc(p, 200));
        auto none = h.handler(Request{ "GET", p + "x!", {} });
        VP_CHECK(none.code == 404, "no-file-no-error", "embedded");
        ctx().count("embedded");
    }
}
void vp_main(vp::Ctx &c) {
    for (std::uint64_t i = 0; i < vp::scaled(800 / c.shards) && !c.anyViolation(); i++) {
        vp::Rng r(c.seed * 7001 + i * 13 + std::uint64_t(c.shard) * 100003);
        site(r, int(i));
        embedded(r);
    }
}
