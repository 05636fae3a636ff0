// Monitors for the URI value type (U01 decomposition, U02 codec/query, U03 value semantics, U04 hostile text, U05 factory)
#include <cassert>
#include <cstdint>
#include <memory>
#include <vector>
#include <URI.hpp>
#include "vp.hpp"

using namespace opencmw;
using vp::ctx;
using vp::esc;
using vp::Rng;
using OptStr   = std::optional<std::string>;
using QueryMap = std::unordered_map<std::string, OptStr>;

static const std::string ALNUM = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789";
static const std::string UNRES = ALNUM + "-._~";
static const std::string LEGAL = ALNUM + "-._~:/?#[]@!$&'()*+,;=%";

struct Parts {
    std::string scheme, user, pwd, host, port, path, query, fragment;
    bool        hasAt = false, hasPwd = false, hasPort = false, hasAuth = false;
    std::string authority() const {
        std::string a;
        if (hasAt) { a += user; if (hasPwd) a += ":" + pwd; a += "@"; }
        a += host;
        if (hasPort) a += ":" + port;
        return a;
    }
    std::string text() const {
        std::string t;
        if (!scheme.empty()) t += scheme + ":";
        if (hasAuth) t += "//" + authority();
        t += path;
        if (!query.empty()) t += "?" + query;
        if (!fragment.empty()) t += "#" + fragment;
        return t;
    }
};

template<uri_check K>
Parts genParts(Rng &r) {
    constexpr bool S = K == STRICT;
    Parts          p;
    // long and short texts: below/above the small-string threshold
    const std::size_t L = r.chance(40) ? 3 : (r.chance(80) ? 12 : 80);
    if (r.chance(75)) p.scheme = r.str(ALNUM, 1, std::min<std::size_t>(L, 10));
    if (!p.scheme.empty() && r.chance(75)) {
        p.hasAuth = true;
        if (r.chance(45)) {
            p.hasAt = true;
            p.user  = r.str(ALNUM + "-._*", r.chance(10) ? 0 : 1, L);
            if (r.chance(60)) { p.hasPwd = true; p.pwd = r.str(S ? ALNUM + "-._*:" : ALNUM + "-._*:!$&'()+,;= \x80\xfe", r.chance(10) ? 0 : 1, L); }
        }
        const auto k = r.below(10);
        if (k == 0) p.host = "*";
        else if (k == 1) p.host = "[" + r.str("0123456789abcdef:", 1, 12) + "]";
        else if (k == 2) p.host = "";
        else p.host = r.str(S ? ALNUM + "-._" : ALNUM + "-._~!$ \xc3\xa9", 1, L);
        if (r.chance(60)) { p.hasPort = true; p.port = std::to_string(r.chance(30) ? static_cast<unsigned>(r.pick(std::vector<int>{ 0, 1, 79, 80, 8080, 65534, 65535 })) : static_cast<unsigned>(r.below(65536))); }
        if (p.authority().empty()) p.host = "h";
    }
    const std::string pathAl = S ? ALNUM + "-._/" : ALNUM + "-._/~:@=&;,+%!$'()*[] \"<>{}|\\^`\x01\x7f\x80\xff";
    if (r.chance(80)) {
        p.path = "/" + r.str(pathAl, 0, L * 2);
        if (!p.hasAuth && p.path.size() > 1 && p.path[1] == '/') p.path[1] = 'p'; // "//" would be an authority
        if (!p.scheme.empty() && !p.hasAuth && r.chance(20)) { p.path.erase(0, 1); if (!p.path.empty() && p.path[0] == '/') p.path[0] = 'q'; } // rootless "file:path"
    }
    if (p.path.find_first_of("?#") != std::string::npos) p.path = "/x";
    if (r.chance(55)) {
        p.query = r.str(S ? UNRES + ":/?@!$&'()*+,;=%[]" : UNRES + ":/?@!$&'()*+,;=%[] \"<>{}|\\^`\x01\x7f\x80\xff", 1, L * 2);
    }
    if (r.chance(45)) p.fragment = r.str(S ? UNRES + ":/?#@!$&'()*+,;=%[]" : UNRES + ":/?#@!$&'()*+,;=%[] \"<>{}|\\^`\x80\xff", 1, L);
    return p;
}

static OptStr opt(const std::string &s) { return s.empty() ? OptStr{} : OptStr{ s }; }
static std::string show(const OptStr &o) { return o ? "'" + *o + "'" : "<none>"; }

template<uri_check K>
void checkParts(const URI<K> &u, const Parts &p, const std::string &txt, const std::string &pre) {
    auto eq = [&](const char *what, const OptStr &got, const OptStr &want) {
        VP_CHECK(got == want, pre + what, "text '" + txt + "': got " + show(got) + " want " + show(want));
    };
    VP_CHECK(u.str() == txt && u() == txt && u.empty() == txt.empty(), pre + "str", "text '" + txt + "' kept as '" + u.str() + "'");
    eq("scheme", u.scheme(), opt(p.scheme));
    eq("authority", u.authority(), p.hasAuth ? opt(p.authority()) : OptStr{});
    eq("user", u.user(), p.hasAt ? opt(p.user) : OptStr{});
    eq("password", u.password(), p.hasPwd ? opt(p.pwd) : OptStr{});
    eq("host", u.hostName(), opt(p.host));
    const auto port = u.port();
    const auto wantPort = p.hasPort ? std::optional<std::uint16_t>(static_cast<std::uint16_t>(std::stoul(p.port))) : std::nullopt;
    VP_CHECK(port == wantPort, pre + "port", "text '" + txt + "': got " + (port ? std::to_string(*port) : "<none>") + " want " + (wantPort ? std::to_string(*wantPort) : "<none>"));
    eq("path", u.path(), opt(p.path));
    eq("query", u.queryParam(), opt(p.query));
    eq("fragment", u.fragment(), opt(p.fragment));
    const bool simpleQ = p.query.empty() || p.query[0] != '?';
    if (simpleQ) {
        std::string rel = (p.path.empty() || p.path[0] == '/' ? "" : "/") + p.path + (p.query.empty() ? "" : "?" + p.query);
        eq("relativeRefNoFragment", u.relativeRefNoFragment(), opt(rel));
        if (p.fragment.find_first_not_of(UNRES) == std::string::npos) {
            std::string rf = rel + (p.fragment.empty() ? "" : "#" + p.fragment);
            eq("relativeRef", u.relativeRef(), opt(rf));
        }
    }
}

template<uri_check K>
void u01(std::uint64_t n) {
    auto &r = ctx().rng;
    std::vector<std::pair<std::string, std::size_t>> pool;
    const std::string pre = K == STRICT ? "strict:" : "relaxed:";
    for (std::uint64_t i = 0; i < n; ++i) {
        const auto p   = genParts<K>(r);
        const auto txt = p.text();
        ctx().crumb("decompose", txt);
        try {
            const URI<K> u(txt);
            checkParts(u, p, txt, pre);
            checkParts(u, p, txt, pre); // lazily evaluated state must not change the answer
            // equality / ordering / hash follow the text
            Parts      q  = p;
            if (r.chance(50)) q = genParts<K>(r); else if (!q.path.empty()) q.path += "x";
            const auto t2 = q.text();
            const URI<K> v(t2);
            VP_CHECK((u == v) == (txt == t2) && (u < v) == (txt < t2) && (u > v) == (txt > t2), pre + "compare", "'" + txt + "' vs '" + t2 + "'");
            if (txt == t2) VP_CHECK(std::hash<URI<K>>{}(u) == std::hash<URI<K>>{}(v), pre + "hash", txt);
            VP_CHECK(std::hash<URI<K>>{}(u) == std::hash<URI<K>>{}(URI<K>(txt)), pre + "hash", txt);
            const unsigned shape = !p.scheme.empty() | p.hasAuth << 1 | p.hasAt << 2 | p.hasPwd << 3 | p.hasPort << 4 | (!p.path.empty()) << 5 | (!p.query.empty()) << 6 | (!p.fragment.empty()) << 7 | (p.host.size() && p.host[0] == '[') << 8 | (txt.size() > 15) << 9;
            ctx().count("shape_" + std::to_string(std::popcount(shape)) + "_parts");
            if (txt.size() > 2) ctx().distinct(vp::mix(vp::fnv(txt), K));
        } catch (const std::exception &e) {
            ctx().violation(pre + "reject", "well-formed URI '" + txt + "' rejected: " + e.what());
        }
        if (i % 997 == 0) ctx().sample(txt);
    }
}

// scheme-less network-path reference "//authority/path" (documented form "[scheme:][//authority][/path]...")
template<uri_check K>
void u01net() {
    try {
        const URI<K> u(std::string("//host:80/p"));
        VP_CHECK(u.authority() == "host:80" && u.path() == "/p", "netpath-reference", "'//host:80/p': authority " + show(u.authority()) + " path " + show(u.path()));
    } catch (const URISyntaxException &e) {
        ctx().violation("netpath-reference", std::string("'//host:80/p' rejected: ") + e.what());
    }
}

// ---------------------------------------------------------------- U02 codec and query map
static std::string refEncode(std::string_view s) {
    std::string o;
    for (unsigned char c : s) {
        if (UNRES.find(static_cast<char>(c)) != std::string::npos) o += static_cast<char>(c);
        else { char b[4]; std::snprintf(b, sizeof b, "%%%02X", c); o += b; }
    }
    return o;
}
template<uri_check K>
void u02(std::uint64_t n) {
    auto             &r   = ctx().rng;
    const std::string pre = K == STRICT ? "strict:" : "relaxed:";
    // codec: every byte and every byte pair, then random binary strings
    if (ctx().shard == 0) {
        for (int a = 0; a < 256; ++a) {
            for (int b = -1; b < 256; ++b) {
                std::string s(1, static_cast<char>(a));
                if (b >= 0) s += static_cast<char>(b);
                ctx().crumb("codec", s);
                const auto e = URI<K>::encode(s);
                VP_CHECK(e == refEncode(s), pre + "encode", "bytes '" + s + "' encoded as '" + e + "' want '" + refEncode(s) + "'");
                VP_CHECK(URI<K>::decode(e) == s, pre + "decode-encode", "bytes '" + s + "' came back as '" + URI<K>::decode(e) + "'");
            }
        }
        for (int a = 0; a < 256; ++a) { // lower-case escapes are equivalent
            char u[4], l[4];
            std::snprintf(u, 4, "%%%02X", a); std::snprintf(l, 4, "%%%02x", a);
            VP_CHECK(URI<K>::decode(u) == std::string(1, static_cast<char>(a)) && URI<K>::decode(l) == std::string(1, static_cast<char>(a)), pre + "decode-hex", u);
        }
    }
    for (std::uint64_t i = 0; i < n; ++i) {
        const auto s = r.chance(50) ? r.bytes(0, 40) : r.str(LEGAL + " \"<>{}", 0, 60);
        ctx().crumb("codec", s);
        const auto e = URI<K>::encode(s);
        VP_CHECK(e == refEncode(s), pre + "encode", "bytes '" + s + "' encoded as '" + e + "'");
        VP_CHECK(e.find_first_not_of(UNRES + "%") == std::string::npos, pre + "encode-alphabet", s);
        VP_CHECK(URI<K>::decode(e) == s, pre + "decode-encode", "bytes '" + s + "' came back as '" + URI<K>::decode(e) + "'");
        if (s.size() > 1) ctx().distinct(vp::mix(vp::fnv(s), 7 + K));

        // query map: random key/value sets, keys and values arbitrary bytes, percent-encoded; also raw text with both separators
        QueryMap    want;
        std::string q;
        const int   m = static_cast<int>(r.range(1, 6));
        for (int k = 0; k < m; ++k) {
            const auto key = r.chance(60) ? r.str(UNRES, 1, 6) : r.bytes(1, 6);
            OptStr     val;
            if (r.chance(70)) val = r.chance(50) ? r.str(UNRES, 1, 12) : r.bytes(1, 12);
            if (!q.empty()) q += r.chance(60) ? "&" : ";";
            // '=' ':' and '/' may appear raw inside a value
            std::string encVal = val ? URI<K>::encode(*val) : "";
            if (val && r.chance(15)) { encVal += "=x:y/z"; *val += "=x:y/z"; }
            q += URI<K>::encode(key);
            if (val) q += "=" + encVal;
            else if (r.chance(30)) q += "="; // "key=" : present without value
            want[key] = val;
        }
        // a value-less "key=" in the middle may be reported as present-and-empty: both readings are accepted, the key must be there
        const auto txt = (r.chance(50) ? "mdp://h:1/p?" : "/p?") + q + (r.chance(30) ? "#frag" : "");
        ctx().crumb("query", txt);
        try {
            const URI<K> u(txt);
            for (int pass = 0; pass < 2; ++pass) {
                const auto &got = u.queryParamMap();
                bool        ok  = got.size() == want.size();
                for (auto &[k, v] : want) {
                    auto it = got.find(k);
                    if (it == got.end()) { ok = false; continue; }
                    if (v) ok = ok && it->second == v;
                    else ok = ok && (!it->second || it->second->empty());
                }
                std::string g;
                if (!ok) for (auto &[k, v] : got) g += "{" + k + "=" + show(v) + "} ";
                VP_CHECK(ok, pre + "query-map", "text '" + txt + "' parsed as " + g);
            }
            ctx().count("query_params", want.size());
            if (want.size() > 1) ctx().distinct(vp::mix(vp::fnv(q), 11 + K));
        } catch (const std::exception &e2) {
            ctx().violation(pre + "query-reject", "'" + txt + "' rejected: " + e2.what());
        }
        // factory-built query round trip
        {
            auto f = URI<K>::factory().path("/svc");
            QueryMap set;
            const int c = static_cast<int>(r.range(1, 4));
            for (int k = 0; k < c; ++k) {
                const auto key = r.bytes(1, 5);
                if (r.chance(40)) { set[key] = std::nullopt; f = std::move(f).addQueryParameter(key); }
                else { const auto v = r.bytes(1, 9); set[key] = v; f = std::move(f).addQueryParameter(key, v); }
            }
            if (r.chance(30)) { f = URI<K>::factory().path("/svc").setQuery(set); }
            ctx().crumb("query-built");
            const auto u = f.build();
            VP_CHECK(u.queryParamMap() == set, pre + "query-built", "query '" + u.queryParam().value_or("") + "' does not parse back to the parameters it was built from");
        }
        if (i % 499 == 0) ctx().sample(txt);
    }
}

// ---------------------------------------------------------------- U03 value semantics under histories
template<uri_check K>
void u03(std::uint64_t n) {
    auto &r = ctx().rng;
    const std::string pre = K == STRICT ? "strict:" : "relaxed:";
    struct Slot { std::unique_ptr<URI<K>> u; Parts p; };
    for (std::uint64_t i = 0; i < n; ++i) {
        std::vector<Slot> s(4);
        std::string       hist;
        auto touch = [&](Slot &x) {
            if (!x.u) return;
            checkParts(*x.u, x.p, x.p.text(), pre + "after-history:");
            // the parameter map is the one a fresh object of the same text has (same verdict, same content)
            auto params = [](const URI<K> &u) -> std::pair<bool, QueryMap> { try { return { true, u.queryParamMap() }; } catch (const URISyntaxException &) { return { false, {} }; } };
            VP_CHECK(params(*x.u) == params(URI<K>(x.p.text())), pre + "after-history:query-map", hist + " | " + x.p.text());
        };
        std::uint64_t h = 0;
        const int     steps = static_cast<int>(r.range(6, 24));
        for (int k = 0; k < steps; ++k) {
            auto      &a  = s[r.below(s.size())];
            auto      &b  = s[r.below(s.size())];
            const auto op = r.below(11);
            h             = vp::mix(h, op * 16 + static_cast<std::uint64_t>(&a - s.data()) * 4 + static_cast<std::uint64_t>(&b - s.data()));
            hist += static_cast<char>('a' + op);
            ctx().crumb("history", hist + " | " + (a.u ? a.u->str() : "-") + " | " + (b.u ? b.u->str() : "-"));
            switch (op) {
            case 0: case 1: { a.p = genParts<K>(r); auto t = a.p.text(); a.u = r.chance(50) ? std::make_unique<URI<K>>(t) : std::make_unique<URI<K>>(std::string(t)); } break;
            case 2: if (b.u && &a != &b) { a.u = std::make_unique<URI<K>>(*b.u); a.p = b.p; } break;                            // copy-construct
            case 3: if (b.u && &a != &b) { auto t = std::make_unique<URI<K>>(std::move(*b.u)); a.p = b.p; a.u = std::move(t); b.u.reset(); } break; // move-construct
            case 4: if (a.u && b.u) { *a.u = *b.u; a.p = b.p; } break;                                                           // copy-assign (also self)
            case 5: if (a.u && b.u && &a != &b) { *a.u = std::move(*b.u); a.p = b.p; b.u.reset(); } break;                         // move-assign, source dies
            case 6: a.u.reset(); break;
            case 7: touch(a); break;                                                                                             // forces the lazy parts
            case 8: if (a.u && b.u && &a != &b) { std::swap(*a.u, *b.u); std::swap(a.p, b.p); } break;
            case 9: if (a.u && b.u && &a != &b) { *a.u = std::move(*b.u); a.p = b.p; b.p = genParts<K>(r); *b.u = URI<K>(b.p.text()); } break; // moved-from is re-assigned and reused
            case 10: if (a.u) { std::vector<URI<K>> v; for (int z = 0; z < 5; ++z) { v.push_back(*a.u); } *a.u = v[r.below(5)]; } break;
            }
            touch(a);
            if (r.chance(50)) touch(b);
            if (a.u && r.chance(30)) (void) a.u->port();
        }
        for (auto &x : s) touch(x);
        ctx().distinct(h);
        if (i % 499 == 0) ctx().sample("op history " + hist);
    }
}

// ---------------------------------------------------------------- U04 hostile text
template<uri_check K>
void hostileOne(const std::string &txt, const std::string &pre) {
    ctx().crumb("hostile", txt);
    ctx().eval();
    std::optional<URI<K>> u;
    try {
        u.emplace(txt);
    } catch (const URISyntaxException &) {
        ctx().count(pre + "rejected");
        // a rejection must be stable
        try { URI<K> again(txt); ctx().violation(pre + "unstable-reject", txt); } catch (const URISyntaxException &) {}
        return;
    } catch (const std::exception &e) {
        ctx().violation(pre + "wrong-exception", "'" + txt + "': " + e.what());
        return;
    }
    ctx().count(pre + "accepted");
    if constexpr (K == STRICT) {
        VP_CHECK(txt.find_first_not_of(LEGAL) == std::string::npos, pre + "illegal-accepted", "strict parser accepted '" + txt + "'");
        auto only = [&](const char *what, const OptStr &o, const std::string &al) {
            if (o) VP_CHECK(o->find_first_not_of(al) == std::string::npos, pre + "illegal-in-" + what, "'" + txt + "' -> " + show(o));
        };
        only("scheme", u->scheme(), ALNUM);
        only("authority", u->authority(), ALNUM + "@:.-_*[]");
        only("path", u->path(), ALNUM + "/.-_");
    }
    VP_CHECK(u->str() == txt, pre + "text-changed", txt);
    // all accessors are total; every piece is a piece of the text
    auto piece = [&](const OptStr &o) { if (o) VP_CHECK(!o->empty() && txt.find(*o) != std::string::npos, pre + "foreign-piece", "'" + txt + "' -> " + show(o)); };
    piece(u->scheme()); piece(u->authority()); piece(u->user()); piece(u->password()); piece(u->hostName()); piece(u->path()); piece(u->queryParam()); piece(u->fragment());
    const auto port = u->port();
    if (port) {
        // a reported port is the number written in the text
        VP_CHECK(txt.find(std::to_string(*port)) != std::string::npos, pre + "invented-port", "'" + txt + "' -> " + std::to_string(*port));
    }
    (void) u->relativeRef(); (void) u->relativeRefNoFragment();
    for (int pass = 0; pass < 2; ++pass) {
        bool                    threw = false;
        std::optional<QueryMap> m;
        try { m = u->queryParamMap(); } catch (const URISyntaxException &) { threw = true; } catch (const std::exception &e) { ctx().violation(pre + "wrong-exception", "query of '" + txt + "': " + e.what()); return; }
        if constexpr (K == STRICT) { if (!threw && u->queryParam()) VP_CHECK(u->queryParam()->find_first_not_of(UNRES + "&;=%:/") == std::string::npos, pre + "illegal-in-query", "parameters of '" + txt + "' accepted"); }
        static thread_local bool first;
        if (pass == 0) first = threw;
        else VP_CHECK(first == threw, pre + "query-verdict-flips", "query of '" + txt + "' first " + (first ? "rejected" : "accepted") + ", then " + (threw ? "rejected" : "accepted"));
    }
    try { std::string f = URI<K>::factory(*u).toString(); (void) f; } catch (const std::exception &e) { ctx().violation(pre + "factory-throws", txt + ": " + e.what()); }
    const URI<K> c(*u);
    VP_CHECK(c == *u && c.path() == u->path() && c.fragment() == u->fragment(), pre + "copy", txt);
    if (txt.size() > 1) ctx().distinct(vp::mix(vp::fnv(txt), K));
}
template<uri_check K>
void u04(std::uint64_t n) {
    auto             &r   = ctx().rng;
    const std::string pre = K == STRICT ? "strict:" : "relaxed:";
    const std::string delim = ":/?#[]@%=&;a1";
    if (ctx().shard == 0) { // all short strings over the delimiter alphabet (length <= 4), exhaustively
        for (int len = 0; len <= 4; ++len) {
            std::vector<int> idx(static_cast<std::size_t>(len), 0);
            for (;;) {
                std::string t;
                for (int x : idx) t += delim[static_cast<std::size_t>(x)];
                hostileOne<K>(t, pre);
                int p = len - 1;
                while (p >= 0 && ++idx[static_cast<std::size_t>(p)] == static_cast<int>(delim.size())) idx[static_cast<std::size_t>(p--)] = 0;
                if (p < 0) break;
            }
        }
        for (int c = 0; c < 256; ++c) for (auto *t : { "%s", "s:%s", "s://%s", "s://h/%s", "s://h:%s", "/%s", "?%s", "?a=%s", "#%s", "s://u%s@h" }) {
            std::string x(t); x.replace(x.find("%s"), 2, 1, static_cast<char>(c)); hostileOne<K>(x, pre);
        }
        for (auto *p : { "", "x", "80x", "-1", "+5", "65536", "99999999999999999999", " 80", "0x50", "1e3", "]", "[::1]" }) { hostileOne<K>(std::string("mdp://host:") + p + "/a", pre); }
    }
    for (std::uint64_t i = 0; i < n; ++i) {
        std::string t;
        const auto  k = r.below(4);
        if (k == 0) t = r.bytes(0, 30);
        else if (k == 1) t = r.str(LEGAL, 0, 40);
        else if (k == 2) t = r.str(delim, 0, 14);
        else { // mutate a well-formed one
            t = genParts<K>(r).text();
            for (auto m = r.range(1, 4); m > 0 && !t.empty(); --m) {
                const auto at = r.below(t.size());
                switch (r.below(3)) { case 0: t[at] = r.chance(50) ? delim[r.below(delim.size())] : static_cast<char>(r.next()); break; case 1: t.erase(at, 1 + r.below(3)); break; default: t.insert(at, 1, delim[r.below(delim.size())]); }
            }
        }
        hostileOne<K>(t, pre);
        // the percent decoder on arbitrary text
        const auto d = r.chance(50) ? r.str("%0129afAFgZ ", 0, 10) : r.bytes(0, 12);
        ctx().crumb("decode-hostile", d);
        bool wellFormed = true;
        std::string ref;
        for (std::size_t j = 0; j < d.size(); ++j) {
            if (d[j] != '%') { ref += d[j]; continue; }
            if (j + 2 < d.size() + 0 && std::isxdigit(static_cast<unsigned char>(d[j + 1])) && std::isxdigit(static_cast<unsigned char>(d[j + 2]))) { ref += static_cast<char>(std::stoi(d.substr(j + 1, 2), nullptr, 16)); j += 2; }
            else { wellFormed = false; break; }
        }
        try {
            // exactly-sized heap copy: reading past the end is visible to the sanitizer
            std::vector<char> buf(d.begin(), d.end());
            const auto o = URI<K>::decode(std::string_view(buf.data(), buf.size()));
            if (wellFormed) VP_CHECK(o == ref, pre + "decode", "'" + d + "' -> '" + o + "'");
            else if (K == STRICT) ctx().violation(pre + "malformed-escape-accepted", "'" + d + "' decoded to '" + o + "'");
        } catch (const URISyntaxException &) {
            VP_CHECK(!wellFormed, pre + "decode-reject", d);
        } catch (const std::exception &e) {
            ctx().violation(pre + "wrong-exception", "decode '" + d + "': " + e.what());
        }
        if (i % 997 == 0) ctx().sample(t);
    }
}

// ---------------------------------------------------------------- U05 factory
template<uri_check K>
void u05(std::uint64_t n) {
    auto             &r   = ctx().rng;
    const std::string pre = K == STRICT ? "strict:" : "relaxed:";
    for (std::uint64_t i = 0; i < n; ++i) {
        auto p = genParts<K>(r);
        if (!p.query.empty() && p.query[0] == '?') p.query = "q";
        if (p.fragment.find_first_not_of(UNRES) != std::string::npos) p.fragment = "frag";
        const auto txt = p.text();
        ctx().crumb("factory", txt);
        const URI<K> u(txt);
        const bool   touched = r.chance(50);
        if (touched) { (void) u.user(); (void) u.port(); } // lazily parsed state must not influence the result
        auto f = URI<K>::factory(u);
        VP_CHECK(f.toString() == txt, pre + "identity", "'" + txt + "' rebuilt as '" + f.toString() + "'");
        // composing is repeatable
        if (r.chance(50)) f = std::move(f).addQueryParameter("k" + std::to_string(r.below(5)), r.bytes(0, 5));
        if (r.chance(50)) f = std::move(f).addQueryParameter("flag" + std::to_string(r.below(5)));
        const auto t1 = f.toString();
        const auto g  = f.copy();
        const auto t2 = f.toString();
        const auto b  = f.build().str();
        VP_CHECK(t1 == t2 && t1 == b && g.toString() == t1, pre + "repeatable", "first '" + t1 + "' then '" + t2 + "' built '" + b + "'");
        // replacing one part leaves the others
        Parts q = p;
        auto  e = URI<K>::factory(u);
        if (r.chance(50) ) { q.scheme = p.scheme.empty() ? "" : r.str(ALNUM, 1, 8); if (!q.scheme.empty()) e = std::move(e).scheme(q.scheme); }
        if (r.chance(50) && p.hasAuth) { q.path = "/" + r.str(ALNUM + "-._", 0, 8); e = std::move(e).path(r.chance(50) ? q.path : q.path.substr(1)); if (q.path == "/") { q.path = "/x"; e = std::move(e).path("/x"); } }
        if (r.chance(50)) { q.fragment = r.str(UNRES, 0, 8); e = std::move(e).fragment(q.fragment); }
        if (r.chance(50)) { q.query = r.str(UNRES, 0, 8); e = std::move(e).queryParam(q.query); }
        const auto want = q.text();
        if (!(q.path.empty() && !q.hasAuth && q.scheme.empty() && want.empty())) VP_CHECK(e.toString() == want, pre + "replace-part", "'" + txt + "' -> '" + e.toString() + "' want '" + want + "'");
        // assembling from parts: the text has exactly those parts
        {
            Parts c = genParts<K>(r);
            if (!c.query.empty() && c.query[0] == '?') c.query = "q";
            if (c.fragment.find_first_not_of(UNRES) != std::string::npos) c.fragment = "frag";
            if (c.hasAt && c.user.empty()) { c.hasAt = c.hasPwd = false; c.user.clear(); c.pwd.clear(); }
            if (c.hasPwd && c.pwd.empty()) c.hasPwd = false;
            if (c.hasAuth && c.host.empty()) c.host = "hh";
            auto z = URI<K>::factory();
            if (!c.scheme.empty()) z = std::move(z).scheme(c.scheme);
            if (c.hasAt) z = std::move(z).user(c.user);
            if (c.hasPwd) z = std::move(z).password(c.pwd);
            if (c.hasAuth) z = std::move(z).hostName(c.host);
            if (c.hasPort) z = std::move(z).port(static_cast<std::uint16_t>(std::stoul(c.port)));
            z = std::move(z).path(c.path).queryParam(c.query).fragment(c.fragment);
            ctx().crumb("factory-parts", c.text());
            const auto t = z.toString();
            VP_CHECK(t == c.text(), pre + "assemble", "parts of '" + c.text() + "' assembled as '" + t + "'");
            const auto built = z.build();
            checkParts(built, c, c.text(), pre + "built:");
            ctx().distinct(vp::mix(vp::fnv(t), K));
        }
        if (i % 499 == 0) ctx().sample(txt + "  =>  " + t1);
    }
    // arbitrary fragments survive assembling once percent-decoded
    for (std::uint64_t i = 0; i < n / 4; ++i) {
        auto frag = r.bytes(1, 8);
        if (frag[0] == '#') frag[0] = 'f';
        const auto u = URI<K>::factory().scheme("mdp").hostName("h").path("/p").fragment(frag).build();
        VP_CHECK(u.fragment() && URI<K>::decode(*u.fragment()) == frag, pre + "fragment-encode", frag);
    }
    { // a percent-escape already present in the fragment must not be escaped again
        const URI<K> u(std::string("mdp://h/p#a%20b"));
        VP_CHECK(URI<K>::factory(u).toString() == u.str(), "fragment-double-encoding", "'mdp://h/p#a%20b' rebuilt as '" + URI<K>::factory(u).toString() + "'");
    }
}

void vp_main(vp::Ctx &c) {
    const auto &m = c.mode;
    if (m == "u01") { u01<STRICT>(vp::scaled(15000)); u01<RELAXED>(vp::scaled(15000)); u01net<STRICT>(); u01net<RELAXED>(); }
    if (m == "u02") { u02<STRICT>(vp::scaled(5000)); u02<RELAXED>(vp::scaled(5000)); }
    if (m == "u03") { u03<STRICT>(vp::scaled(1500)); u03<RELAXED>(vp::scaled(1500)); }
    if (m == "u04") { u04<STRICT>(vp::scaled(20000)); u04<RELAXED>(vp::scaled(20000)); }
    if (m == "u05") { u05<STRICT>(vp::scaled(6000)); u05<RELAXED>(vp::scaled(6000)); }
}
