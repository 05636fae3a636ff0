// C01 TimingCtx, C02 Topic, C03 filters / subscription matcher, C04 MIME, C05 collection
#include "vp.hpp"
#include <MIME.hpp>
#include <TimingCtx.hpp>
#include <Topic.hpp>
#include <cassert>
#include <collection.hpp>
#include <majordomo/SubscriptionMatcher.hpp>
#include <limits>
#include <optional>
#include <sstream>

using opencmw::TimingCtx;
using opencmw::mdp::Topic;

// ------------------------------------------------------------------------------------------------ C01
struct Sel { // what a selector text means
    bool                   ok = true;
    std::array<int32_t, 4> f{ -1, -1, -1, -1 };
};
static std::string upper(std::string s) { for (auto &c : s) if (c >= 'a' && c <= 'z') c = static_cast<char>(c - 32); return s; }
static Sel         meaning(const std::string &text) {
    Sel  r;
    auto s = upper(text);
    if (s.empty() || s == "ALL" || s == "FAIR.SELECTOR.ALL") return r;
    const std::string pre = "FAIR.SELECTOR.";
    r.ok = false;
    if (!s.starts_with(pre)) return r;
    s = s.substr(pre.size());
    std::vector<std::string> tags;
    std::string              cur;
    for (char c : s) { if (c == ':') { tags.push_back(cur); cur.clear(); } else cur += c; }
    tags.push_back(cur);
    for (auto &t : tags) {
        if (t.size() < 3 || t[1] != '=') return r;
        auto pos = std::string("CSPT").find(t[0]);
        if (pos == std::string::npos) return r;
        auto v = t.substr(2);
        if (v == "ALL") { r.f[pos] = -1; continue; }
        std::size_t i = v[0] == '-' ? 1 : 0;
        if (i == v.size()) return r;
        __int128 n = 0;
        for (; i < v.size(); ++i) { if (v[i] < '0' || v[i] > '9') return r; n = n * 10 + (v[i] - '0'); if (n > (__int128(1) << 40)) return r; }
        if (v[0] == '-') n = -n;
        if (n < std::numeric_limits<int32_t>::min() || n > std::numeric_limits<int32_t>::max()) return r;
        r.f[pos] = static_cast<int32_t>(n);
    }
    r.ok = true;
    return r;
}
static std::string canonical(const std::array<int32_t, 4> &f) {
    std::string o;
    for (std::size_t i = 0; i < 4; ++i) if (f[i] != -1) o += std::string(o.empty() ? "" : ":") + "CSPT"[i] + "=" + std::to_string(f[i]);
    return "FAIR.SELECTOR." + (o.empty() ? "ALL" : o);
}
static std::string randomSelector(vp::Rng &r) {
    std::string s;
    switch (r.below(12)) {
    case 0: s = ""; break;
    case 1: s = "ALL"; break;
    case 2: s = "FAIR.SELECTOR.ALL"; break;
    case 3: s = r.str("FAIR.SELECTOR.C=1:AL-", 0, 24); break;
    default: {
        s = "FAIR.SELECTOR.";
        for (auto n = 1 + r.below(4); n > 0; --n) {
            std::string v;
            switch (r.below(10)) {
            case 0: v = "ALL"; break;
            case 1: v = "-1"; break;
            case 2: v = std::to_string(static_cast<int32_t>(r.next())); break;
            case 3: v = r.pick(std::vector<std::string>{ "2147483647", "-2147483648", "2147483648", "-2147483649", "99999999999", "12A", "1 ", "+3", "", "-", "ABC", "1=2", "0x1", "1.5", "007", "ALLX", "--1" }); break;
            default: v = std::to_string(r.below(5)); break;
            }
            s += std::string(1, "CSPTX"[r.chance(4) ? 4 : r.below(4)]) + (r.chance(97) ? "=" : "") + v + (n > 1 ? ":" : "");
        }
        if (r.chance(3)) s += ":";
    }
    }
    if (r.chance(20)) for (auto &c : s) if (r.chance(40) && c >= 'A' && c <= 'Z') c = static_cast<char>(c + 32);
    return s;
}
static void c01(vp::Ctx &c) {
    auto &r = c.rng;
    auto  fields = [](const TimingCtx &t) { return std::array<int32_t, 4>{ t.cid(), t.sid(), t.pid(), t.gid() }; };
    struct Obj { TimingCtx t; std::string sel; Sel m; long ts; };
    for (std::uint64_t i = 0; i < vp::scaled(8000); ++i) {
        std::vector<Obj> o;
        std::string      hist;
        // construction
        while (o.size() < 3) {
            auto s  = randomSelector(r);
            long ts = r.chance(40) ? 0 : r.range(-3, 3);
            auto m  = meaning(s);
            c.crumb("construct", s);
            c.distinct(s);
            bool threw = false;
            try {
                TimingCtx t(s, std::chrono::microseconds(ts));
                if (!m.ok) { c.violation("invalid-selector-accepted", s); continue; }
                o.push_back({ t, s, m, ts });
            } catch (const std::invalid_argument &) { threw = true; }
            VP_CHECK(threw == !m.ok, threw ? "valid-selector-rejected" : "invalid-selector-accepted", s);
            c.count(m.ok ? "valid_selectors" : "invalid_selectors");
        }
        if (r.chance(40)) { // numeric construction
            std::array<int32_t, 4> f;
            for (auto &x : f) x = r.chance(30) ? -1 : (r.chance(20) ? static_cast<int32_t>(r.next()) : static_cast<int32_t>(r.range(-2, 4)));
            TimingCtx t(f[0], f[1], f[2], f[3], std::chrono::microseconds(7));
            VP_CHECK(fields(t) == f && t.toString() == canonical(f) && t.bpcts.value() == 7, "numeric-construction-differs", canonical(f) + " got " + t.toString());
            o[0] = { t, t.selector.value(), Sel{ true, f }, 7 };
        }
        // history: selectors are changed (also to invalid texts), every observation reflects the current text
        for (int step = 0; step < 8; ++step) {
            auto &a = o[r.below(o.size())];
            auto &b = o[r.below(o.size())];
            auto  detail = [&] { return hist + " a='" + a.sel + "'@" + std::to_string(a.ts) + " b='" + b.sel + "'@" + std::to_string(b.ts); };
            if (r.chance(45)) { a.sel = randomSelector(r); a.t.selector = a.sel; a.m = meaning(a.sel); hist += "set;"; }
            if (r.chance(15)) { b.t = a.t; b.sel = a.sel; b.m = a.m; b.ts = a.ts; hist += "copy;"; }
            c.crumb("history", detail());
            auto observe = [&](auto &&f) -> std::optional<bool> { try { return f(); } catch (const std::invalid_argument &) { return std::nullopt; } };
            for (int rep = 0; rep < 2; ++rep) { // a rejected selector stays rejected on every access
                bool threw = false;
                try { auto f = fields(a.t); if (a.m.ok) VP_CHECK(f == a.m.f, "fields-differ", detail() + " got " + canonical(f)); } catch (const std::invalid_argument &) { threw = true; }
                VP_CHECK(threw == !a.m.ok, threw ? "valid-selector-rejected-later" : "invalid-selector-read-as-wildcard", detail());
            }
            bool ok = a.m.ok && b.m.ok;
            auto wm = [](int32_t x, int32_t y) { return y == -1 || x == y; };
            bool match = true, eq = a.ts == b.ts;
            for (std::size_t k = 0; k < 4; ++k) { match = match && wm(a.m.f[k], b.m.f[k]); eq = eq && a.m.f[k] == b.m.f[k]; }
            bool self = &a == &b;
            // the second operand may still be un-evaluated here
            auto exp = [&](bool v) { return ok ? std::optional<bool>(v) : std::nullopt; };
            auto show = [](std::optional<bool> v) { return v ? (*v ? "true" : "false") : "throws"; };
            auto cmp = [&](const char *what, std::optional<bool> got, std::optional<bool> want) { VP_CHECK(got == want, std::string(what) + "-differs", detail() + " got " + show(got) + " expected " + show(want)); };
            switch (r.below(5)) { // which one comes first varies
            case 0: cmp("matches", observe([&] { return a.t.matches(b.t); }), exp(match)); break;
            case 1: cmp("equal", observe([&] { return a.t == b.t; }), exp(eq)); break;
            case 2: cmp("less", observe([&] { return a.t < b.t; }), exp(std::tie(a.m.f, a.ts) < std::tie(b.m.f, b.ts))); break;
            case 3: { bool bm = (b.ts == 0 || a.ts == b.ts); auto got = observe([&] { return a.t.matchesWithBpcts(b.t); }); if (bm || ok) cmp("matches-with-bpcts", got, exp(bm && match)); break; }
            default: break;
            }
            if (ok) {
                cmp("matches", observe([&] { return a.t.matches(b.t); }), match);
                cmp("matches-with-bpcts", observe([&] { return a.t.matchesWithBpcts(b.t); }), (b.ts == 0 || a.ts == b.ts) && match);
                cmp("equal", observe([&] { return a.t == b.t; }), eq);
                cmp("less", observe([&] { return a.t < b.t; }), std::tie(a.m.f, a.ts) < std::tie(b.m.f, b.ts));
                VP_CHECK(a.t.toString() == canonical(a.m.f), "toString-differs", detail() + " got " + a.t.toString());
                VP_CHECK(TimingCtx(a.t.toString(), std::chrono::microseconds(a.ts)) == a.t, "toString-not-reparsed", detail());
                if (eq) VP_CHECK(a.t.hash() == b.t.hash() && std::hash<TimingCtx>{}(a.t) == std::hash<TimingCtx>{}(b.t), "equal-but-hash-differs", detail());
                if (self) VP_CHECK(a.t == a.t && a.t.matches(a.t), "not-reflexive", detail());
            } else if (!a.m.ok) {
                // asking an invalid context for its text is an exception the caller can handle
                bool threw = false;
                try { auto s = a.t.toString(); } catch (const std::invalid_argument &) { threw = true; }
                VP_CHECK(threw, "invalid-selector-printed", detail());
                threw = false;
                try { auto s = a.t.hash(); (void) s; } catch (const std::invalid_argument &) { threw = true; }
                VP_CHECK(threw, "invalid-selector-hashed", detail());
            }
        }
        if (i < 3) c.sample(hist + o[0].sel + " | " + o[1].sel);
    }
}

// ------------------------------------------------------------------------------------------------ C02
using Params = Topic::Params;
static bool validName(const std::string &s) {
    if (s.size() < 2 || s[0] != '/' || s.back() == '/') return false;
    for (char ch : s) if (!(ch == '/' || ch == '.' || ch == '_' || (ch >= '0' && ch <= '9') || (ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z'))) return false;
    return true;
}
static Params randomParams(vp::Rng &r) {
    Params p;
    for (auto n = r.below(5); n > 0; --n) {
        std::string k = r.chance(40) ? r.pick(std::vector<std::string>{ "ctx", "contentType", "a", "b", "ab", "id" }) : r.str("abcXYZ019_.", 1, 6);
        switch (r.below(4)) {
        case 0: p[k] = std::nullopt; break;
        case 1: p[k] = r.str("abcXYZ019=:.,- /", 1, 10); break;
        case 2: p[k] = r.str("#&=?%+;/ \"<>", 1, 6); break;
        default: p[k] = r.bytes(1, 6); break;
        }
    }
    return p;
}
static std::string dump(const Params &p) { std::string o; for (auto &[k, v] : p) o += k + (v ? "=" + vp::esc(*v) : "") + "&"; return o; }
static void c02(vp::Ctx &c) {
    auto &r = c.rng;
    std::map<std::string, std::pair<std::string, Params>> byZmq;
    for (std::uint64_t i = 0; i < vp::scaled(15000); ++i) {
        std::string name = r.chance(85) ? "/" + r.str("abcXYZ019_./", 1, 10) : r.str("abc/ -?#%:\xc3\x01", 0, 8);
        if (r.chance(10)) name = r.str("abc/", 0, 6);
        bool   viaQuery = name.find('?') != std::string::npos;
        Params p        = randomParams(r);
        std::string want = name.substr(0, name.find('?'));
        while (want.ends_with("/")) want.pop_back();
        if (!want.starts_with("/")) want = "/" + want;
        c.crumb("topic", name + " " + dump(p));
        Topic t;
        bool  threw = false;
        try { t = Topic::fromString(name, p); } catch (const std::exception &) { threw = true; }
        bool expectThrow = !validName(want) || (viaQuery && !p.empty());
        if (viaQuery && !expectThrow) { c.eval(); continue; } // handled below with well-formed queries
        VP_CHECK(threw == expectThrow, threw ? "valid-topic-rejected" : "invalid-topic-accepted", name + " " + dump(p));
        if (threw || expectThrow) { c.count("rejected"); continue; }
        c.count("topics");
        VP_CHECK(t.service() == want && t.params() == p, "topic-fields-differ", name + " -> " + std::string(t.service()) + " " + dump(t.params()));
        auto z = t.toZmqTopic();
        c.distinct(z);
        VP_CHECK(z == t.toZmqTopic(false) + "#", "zmq-terminator-differs", z);
        VP_CHECK(z.find('#') == z.size() - 1, "zmq-terminator-inside", z);
        try {
            if (!want.starts_with("//") ) { // a path starting with "//" is not expressible in a URI without authority
                auto uri = t.toMdpTopic();
                auto u   = Topic::fromMdpTopic(uri);
                VP_CHECK(u == t, "mdp-round-trip-differs", std::string(uri.str()) + " -> " + std::string(u.service()) + " " + dump(u.params()) + " expected " + want + " " + dump(p));
                VP_CHECK(std::hash<Topic>{}(u) == std::hash<Topic>{}(t), "equal-topics-hash-differs", z);
                auto u2 = Topic::fromMdpTopic(opencmw::URI<opencmw::RELAXED>(std::string(uri.str())));
                VP_CHECK(u2 == t, "mdp-round-trip-differs", "relaxed " + std::string(uri.str()));
            }
            auto v = Topic::fromZmqTopic(z);
            VP_CHECK(v == t, "zmq-round-trip-differs", z + " -> " + std::string(v.service()) + " " + dump(v.params()));
            auto w = Topic::fromZmqTopic(t.toZmqTopic(false));
            VP_CHECK(w == t, "zmq-round-trip-differs", z);
            if (!p.empty()) { auto q = Topic::fromString(t.toZmqTopic(false)); VP_CHECK(q == t, "string-round-trip-differs", z); }
            bool mixed = false;
            if (!p.empty()) { try { Topic::fromString(t.toZmqTopic(false), p); } catch (const std::invalid_argument &) { mixed = true; } VP_CHECK(mixed, "parameters-given-twice-accepted", z); }
        } catch (const std::exception &e) { c.violation("round-trip-throws", z + ": " + e.what()); }
        // equal topics have one zmq text, different topics never share it, and no text is a prefix of another one (zmq matches prefixes)
        Topic other = Topic::fromString(want);
        std::vector<std::pair<std::string, std::optional<std::string>>> shuffled(p.begin(), p.end());
        for (std::size_t k = shuffled.size(); k > 1; --k) std::swap(shuffled[k - 1], shuffled[r.below(k)]);
        bool allValued = true;
        for (auto &[k, v] : shuffled) { if (v) other.addParam(k, *v); else allValued = false; }
        if (allValued) VP_CHECK(other == t && other.toZmqTopic() == z && std::hash<Topic>{}(other) == std::hash<Topic>{}(t), "parameter-order-matters", z + " vs " + other.toZmqTopic());
        auto [it, fresh] = byZmq.try_emplace(z, want, p);
        if (!fresh) VP_CHECK(it->second.first == want && it->second.second == p, "zmq-topic-ambiguous", z);
        auto nx = std::next(it);
        if (nx != byZmq.end()) VP_CHECK(!nx->first.starts_with(z), "zmq-topic-prefix-of-other", z + " / " + nx->first);
        if (i < 3) c.sample(z);
    }
}

// ------------------------------------------------------------------------------------------------ C03
static std::optional<long double> asNumber(const std::string &s, bool isInt) {
    if (s.empty()) return std::nullopt;
    std::size_t i = s[0] == '-' ? 1 : 0;
    if (i == s.size()) return std::nullopt;
    std::size_t dots = 0, digits = 0;
    for (std::size_t k = i; k < s.size(); ++k) { if (s[k] == '.') ++dots; else if (s[k] >= '0' && s[k] <= '9') ++digits; else return std::nullopt; }
    if (!digits || dots > 1 || (isInt && dots)) return std::nullopt;
    long double v = std::strtold(s.c_str(), nullptr);
    if (isInt && (v < std::numeric_limits<int>::min() || v > std::numeric_limits<int>::max())) return std::nullopt;
    return isInt ? v : static_cast<long double>(static_cast<float>(v));
}
static void c03(vp::Ctx &c) {
    auto &r = c.rng;
    opencmw::majordomo::SubscriptionMatcher m;
    m.addFilter<opencmw::TimingCtxFilter>("ctx");
    m.addFilter<opencmw::ContentTypeFilter>("contentType");
    m.addFilter<opencmw::NumberFilter<int>>("id");
    m.addFilter<opencmw::NumberFilter<float>>("gain");
    m.addFilter<opencmw::DomainFilter<std::string_view>>("flag");
    static const std::vector<std::string> keys{ "ctx", "contentType", "id", "gain", "flag", "other", "free" };
    auto value = [&](const std::string &k) -> std::optional<std::string> {
        if (r.chance(12)) return std::nullopt;
        if (k == "ctx") return r.chance(85) ? randomSelector(r) : r.str("abc", 1, 3);
        if (k == "contentType") return r.pick(std::vector<std::string>{ "text/html", "application/json", "TEXT/HTML", "text" });
        if (k == "id") return r.chance(70) ? std::to_string(r.range(-1, 2)) : r.pick(std::vector<std::string>{ "007", "99999999999", "99999999998", "-99999999999", "2147483647", "2147483648", "1a", "", "-", "1.0", " 1", "0" });
        if (k == "gain") return r.chance(70) ? std::to_string(r.range(0, 2)) + "." + std::to_string(r.range(0, 2)) : r.pick(std::vector<std::string>{ "1", "1.0", "1.00", "abc", "1.0x", "0.10", "-0.0", "0", "16777216", "16777217" });
        return r.str("ab", 0, 2);
    };
    auto norm = [](Params p) { for (auto &[k, v] : p) if (v && v->empty()) v = std::nullopt; return p; };
    auto show = [](const std::string &s, const Params &p) { return s + "?" + dump(p); };
    for (std::uint64_t i = 0; i < vp::scaled(40000); ++i) {
        auto   svc = [&] { return r.pick(std::vector<std::string>{ "/s", "/s/a", "/s2", "/S" }); };
        auto   ns = svc(), ss = r.chance(75) ? ns : svc();
        Params np, sp;
        for (auto &k : keys) {
            if (r.chance(55)) sp[k] = value(k);
            if (r.chance(75)) np[k] = (sp.count(k) && r.chance(55)) ? sp[k] : value(k);
        }
        // keep the interesting cases frequent: drop subscriber keys at random so that matches occur
        for (auto it = sp.begin(); it != sp.end();) it = r.chance(45) ? sp.erase(it) : std::next(it);
        auto notified = Topic::fromString(ns, np), sub = Topic::fromString(ss, sp);
        c.crumb("match", show(ns, np) + " ~ " + show(ss, sp));
        bool want = ns == ss;
        for (auto &[k, v] : sp) {
            if (k == "other" || k == "free") continue;
            auto n = np.find(k);
            if (n == np.end()) { want = false; continue; }
            std::string a = n->second.value_or(""), b = v.value_or("");
            if (k == "contentType" || k == "flag") want = want && a == b;
            else if (k == "id" || k == "gain") { auto x = asNumber(a, k == "id"), y = asNumber(b, k == "id"); want = want && x && y && *x == *y; }
            else { auto x = meaning(a), y = meaning(b); bool ok = x.ok && y.ok; for (std::size_t q = 0; q < 4; ++q) ok = ok && (y.f[q] == -1 || x.f[q] == y.f[q]); want = want && ok; }
        }
        bool got = m(notified, sub);
        VP_CHECK(got == want, got ? "delivers-non-matching" : "withholds-matching", "notification " + show(ns, np) + " subscription " + show(ss, sp));
        c.count(want ? "matching" : "non_matching");
        if (!sp.empty()) c.distinct(show(ns, np) + "~" + show(ss, sp));
        if (i < 3) c.sample(show(ns, np) + " ~ " + show(ss, sp));
        (void) norm;
    }
}

// ------------------------------------------------------------------------------------------------ C04
static bool containsNoCase(std::string_view hay, std::string_view needle) { return upper(std::string(hay)).find(upper(std::string(needle))) != std::string::npos; }
static void c04(vp::Ctx &c) {
    using namespace opencmw;
    auto &r = c.rng;
    auto  vary = [&](std::string s) { for (auto &ch : s) if (r.chance(40)) { if (ch >= 'a' && ch <= 'z') ch = static_cast<char>(ch - 32); else if (ch >= 'A' && ch <= 'Z') ch = static_cast<char>(ch + 32); } return s; };
    auto  refType = [&](std::string_view s) -> std::string { for (auto &t : MIME::ALL) if (!s.empty() && containsNoCase(s, t.typeName())) return std::string(t.typeName()); return "unknown/unknown"; };
    auto  refFile = [&](std::string_view s) -> std::string { for (auto &t : MIME::ALL) for (auto e : t.fileExtensions()) if (s.size() >= e.size() && upper(std::string(s.substr(s.size() - e.size()))) == upper(std::string(e))) return std::string(t.typeName()); return "unknown/unknown"; };
    std::vector<std::string> exts;
    for (auto &t : MIME::ALL) for (auto e : t.fileExtensions()) exts.emplace_back(e);
    for (auto &t : MIME::ALL) {
        for (int k = 0; k < 20; ++k) {
            auto n = vary(std::string(t.typeName()));
            for (auto &s : { n, n + "; charset=utf-8", " " + n, n + ";q=0.9" }) { c.crumb("type", s); c.distinct(s); VP_CHECK(MIME::getType(s) == t, "type-not-recognised", s + " -> " + std::string(MIME::getType(s).typeName())); }
            for (auto e : t.fileExtensions()) for (auto &f : { vary("file" + std::string(e)), vary("a.b.tar" + std::string(e)), vary(std::string(e)), "/x.html/y" + vary(std::string(e)) }) { c.crumb("file", f); c.distinct(f); VP_CHECK(MIME::getTypeByFileName(f) == t, "extension-not-recognised", f + " -> " + std::string(MIME::getTypeByFileName(f).typeName())); }
        }
        VP_CHECK(std::string(t) == t.typeName() && std::string_view(static_cast<const char *>(t)) == t.typeName() && std::format("{}", t) == t.typeName(), "conversion-differs", std::string(t.typeName()));
        VP_CHECK(!t.description().empty(), "description-missing", std::string(t.typeName()));
    }
    for (std::uint64_t i = 0; i < vp::scaled(20000); ++i) {
        std::string s;
        for (auto n = r.below(5); n > 0; --n) {
            switch (r.below(4)) {
            case 0: s += vary(std::string(MIME::ALL[r.below(MIME::ALL.size())].typeName())); break;
            case 1: s += r.pick(std::vector<std::string>{ ",", ";", "*/*", "image/*", "text/", "/plain", " ", "q=0.8" }); break;
            case 2: s += vary(r.pick(exts)); break;
            default: s += r.bytes(0, 4); break;
            }
        }
        if (r.chance(15) && !s.empty()) s.pop_back();
        std::vector<char> exact(s.begin(), s.end()); // no terminator behind the view
        std::string_view  v(exact.data(), exact.size());
        c.crumb("any", s);
        if (s.size() > 1) c.distinct(s);
        VP_CHECK(MIME::getType(v).typeName() == refType(s), "type-differs", s + " -> " + std::string(MIME::getType(v).typeName()) + " expected " + refType(s));
        VP_CHECK(MIME::getTypeByFileName(v).typeName() == refFile(s), "file-type-differs", s + " -> " + std::string(MIME::getTypeByFileName(v).typeName()) + " expected " + refFile(s));
        if (i < 3) c.sample(s);
    }
    // the compile-time and the run-time look-up agree
#define VP_CT(S) { static constexpr std::string_view sv = S; constexpr auto ct = MIME::getType(sv); volatile int z = 0; auto rt = MIME::getType(sv.substr(static_cast<std::size_t>(z))); VP_CHECK(ct == rt, "compile-time-differs", S); }
    VP_CT("text/html") VP_CT("text/html,application/json") VP_CT("application/json, text/html") VP_CT("image/webp,image/apng,image/*") VP_CT("") VP_CT("nothing") VP_CT("APPLICATION/JSON;q=1") VP_CT("text/yaml,text/plain,application/zip")
#undef VP_CT
#define VP_CT(S) { static constexpr std::string_view sv = S; constexpr auto ct = MIME::getTypeByFileName(sv); volatile int z = 0; auto rt = MIME::getTypeByFileName(sv.substr(static_cast<std::size_t>(z))); VP_CHECK(ct == rt, "compile-time-differs", S); }
    VP_CT("a.html") VP_CT("A.JSON") VP_CT("") VP_CT("x.tar.gz") VP_CT("html") VP_CT("a.opus")
#undef VP_CT
}

// ------------------------------------------------------------------------------------------------ C05
static void c05(vp::Ctx &c) {
    auto &r = c.rng;
    for (std::uint64_t i = 0; i < vp::scaled(4000); ++i) {
        opencmw::collection<int, std::string, double> k;
        std::vector<int> a; std::vector<std::string> b; std::vector<double> d;
        std::string hist;
        auto verify = [&](const char *where) {
            std::vector<int> x; std::vector<std::string> y; std::vector<double> z;
            k.visit([&](int &v) { x.push_back(v); }, [&](std::string &v) { y.push_back(v); }, [&](double &v) { z.push_back(v); });
            VP_CHECK(x == a && y == b && z == d, "content-differs", hist + where);
            VP_CHECK(k.size() == a.size() + b.size() + d.size() && k.empty() == (k.size() == 0), "size-differs", hist);
            VP_CHECK(k.capacity() >= std::max({ a.size(), b.size(), d.size() }), "capacity-too-small", hist);
        };
        for (int s = 0; s < 25; ++s) {
            auto op = r.below(11);
            hist += static_cast<char>('a' + op);
            c.crumb("collection", hist);
            switch (op) {
            case 0: case 1: { int v = static_cast<int>(r.below(4)); k.push_back(v); a.push_back(v); break; }
            case 2: case 3: { std::string v = r.str("xy", 0, 2) + (r.chance(20) ? std::string(40, 'q') : ""); k.push_back(v); b.push_back(v); break; }
            case 4: { double v = static_cast<double>(r.below(4)) / 2; k.push_back(v); d.push_back(v); break; }
            case 5: { int v = static_cast<int>(r.below(4)); k.remove(v); std::erase(a, v); break; }
            case 6: { std::string v = r.str("xy", 0, 2); k.remove(v); std::erase(b, v); break; }
            case 7: { if (r.chance(20)) { k.clear(); a.clear(); b.clear(); d.clear(); } break; }
            case 8: { k.reserve(r.below(50)); break; }
            case 9: { // remove an element named by a reference into the collection itself
                std::vector<std::string *> ptr; k.visit([&](std::string &v) { ptr.push_back(&v); }, [](int &) {}, [](double &) {});
                if (!ptr.empty()) { auto *p = ptr[r.below(ptr.size())]; std::string v = *p; k.remove(*p); std::erase(b, v); }
                break; }
            default: { // whole-object operations
                auto copy = k;
                VP_CHECK((copy <=> k) == 0 && copy == k, "copy-differs", hist);
                auto moved = std::move(copy); k = moved;
                k.visit([](int &v) { v += 1; }, [](std::string &v) { v += "z"; }, [](double &v) { v += 1; });
                for (auto &v : a) v += 1; for (auto &v : b) v += "z"; for (auto &v : d) v += 1;
                VP_CHECK((moved == k) == (a.empty() && b.empty() && d.empty()), "independent-copy-changed", hist);
                break; }
            }
            verify("");
        }
        c.distinct(hist);
        if (i < 3) c.sample(hist);
        opencmw::collection dup{ 1, 2.0, 3, std::string("s"), 4.0 };
        VP_CHECK(dup.size() == 5, "duplicate-types-lost", "ctor");
        int n = 0; double sum = 0;
        dup.visit([&](int &v) { ++n; sum += v; }, [&](double &v) { ++n; sum += v; }, [&](std::string &) { ++n; });
        VP_CHECK(n == 5 && sum == 10, "duplicate-types-lost", "visit");
    }
}

// ------------------------------------------------------------------------------------------------ C06
static int javaHash(std::string_view s) { std::uint64_t h = 0; for (char ch : s) h = (h * 31 + static_cast<std::uint64_t>(static_cast<unsigned char>(ch))) & 0xFFFFFFFFull; return static_cast<int>(static_cast<std::uint32_t>(h)); }
template<typename T>
static std::string text(const T &v) { std::ostringstream o; using opencmw::operator<<; o << v; return o.str(); }
static void c06(vp::Ctx &c) {
    using namespace opencmw;
    using AS = Annotated<std::string, NoUnit, "a text">;
    using AV = Annotated<std::vector<int>, NoUnit, "numbers">;
    using AI = Annotated<int, units::isq::si::length<units::isq::si::metre>, "a length">;
    auto &r = c.rng;
    VP_CHECK(AS().getDescription() == "a text" && AI().getUnit() == "m" && AI().getDescription() == "a length", "annotation-differs", "static");
    for (std::uint64_t i = 0; i < vp::scaled(6000); ++i) {
        const std::string orig = r.bytes(0, 40);
        const std::string prev = r.str("abc", 0, 30);
        c.crumb("annotated", orig);
        c.distinct(orig);
        // every way to hand over a value: the annotated field has it, an lvalue source keeps it
        {
            std::string src = orig;
            AS a(src), b = src, d(prev), e{ src };
            VP_CHECK(src == orig, "source-changed", "construction from an lvalue");
            d = src;
            VP_CHECK(src == orig, "source-changed", "assignment from an lvalue");
            const std::string cs = orig;
            AS f = cs, g(prev); g = cs;
            AS h(prev); h = std::string(orig);
            AS k = d, l(prev); l = d;
            VP_CHECK(d.value() == orig, "source-changed", "copy of an annotated value");
            AS m = std::move(k);
            for (const AS *x : { &a, &b, &d, &e, &f, &g, &h, &l, &m }) VP_CHECK(x->value() == orig && *x == a, "annotated-value-differs", orig);
            std::string back = a; // usable as the value it annotates
            VP_CHECK(back == orig && a.size() == orig.size(), "annotated-value-differs", orig);
            a.value() += "x";
            VP_CHECK(a.value() == orig + "x" && !(a == b) && b.value() == orig, "annotated-value-shared", orig);
        }
        {
            std::vector<int> src; for (auto n = r.below(6); n > 0; --n) src.push_back(static_cast<int>(r.below(9)));
            const auto keep = src;
            AV a = src, b; b = src;
            VP_CHECK(src == keep, "source-changed", "vector lvalue");
            VP_CHECK(a.value() == keep && b.value() == keep && a == b, "annotated-value-differs", "vector");
            AV d = std::move(b);
            VP_CHECK(d.value() == keep, "annotated-value-differs", "vector move");
        }
        {
            int v = static_cast<int>(r.next()), w = static_cast<int>(r.next());
            AI  a = v, b(w), d; d = a;
            VP_CHECK(a.value() == v && d.value() == v && (a == b) == (v == w) && (a < b) == (v < w), "annotated-value-differs", std::to_string(v));
            VP_CHECK(text(a) == std::to_string(v), "annotated-print-differs", text(a));
        }
        // the field-name hash of the wire formats is Java's String.hashCode
        auto name = r.str("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.: ", 0, 60);
        VP_CHECK(hash(name) == javaHash(name), "name-hash-differs", name);
        // numbers: the whole text is a number of that type, or it is refused
        auto t = r.chance(50) ? std::to_string(static_cast<std::int64_t>(r.next()) >> r.below(60)) : r.str("0123456789-+ .", 0, 6);
        std::int32_t n32 = 77; auto rc = parseNumber(t, n32);
        char *end = nullptr; errno = 0; long long ref = std::strtoll(t.c_str(), &end, 10);
        bool plain = !t.empty() && (std::isdigit(static_cast<unsigned char>(t[0])) || t[0] == '-') && end == t.c_str() + t.size() && t != "-";
        bool fits = plain && errno == 0 && ref >= INT32_MIN && ref <= INT32_MAX;
        VP_CHECK((rc == std::errc{}) == fits && (!fits || n32 == ref), "number-parse-differs", t);
        if (i < 3) c.sample(orig);
    }
    VP_CHECK(hash("") == 0 && hash("hello") == 99162322 && hash("FAIR.SELECTOR.ALL") == javaHash("FAIR.SELECTOR.ALL"), "name-hash-differs", "known values");
}

void vp_main(vp::Ctx &c) {
    if (c.mode == "c06") c06(c);
    if (c.mode == "c01") c01(c);
    else if (c.mode == "c02") c02(c);
    else if (c.mode == "c03") c03(c);
    else if (c.mode == "c04") c04(c);
    else if (c.mode == "c05") c05(c);
}
