// M01 mustache rendering, N01 number parsing, G01 formatting helpers
#include "vp.hpp"
#include <Formatter.hpp>
#include <charconv>
#include <clocale>
#include <cmath>
#include <deque>
#include <list>
#include <mustache.hpp>
#include <optional>
#include <sstream>
#include <fast_float.h>
#include <variant>

using vp::ctx;

// ------------------------------------------------------------------------------------------------ M01
struct Data {
    enum Kind { Str, Bool, Obj, List, Part } kind = Str;
    std::string                                        s;
    bool                                               b = false;
    std::map<std::string, Data>                        obj;
    std::vector<Data>                                  list;
    std::function<std::string()>                       part;
    mutable std::size_t                                pos = 0;
    static inline bool iteratingBroken = false;

    const Data *get(const std::string &n) const {
        if (kind != Obj) return nullptr;
        auto it = obj.find(n);
        return it == obj.end() ? nullptr : &it->second;
    }
    bool               is_string() const { return kind == Str; }
    const std::string &string_value() const { return s; }
    bool               is_false() const { return kind == Bool && !b; }
    bool               is_true() const { return kind == Bool && b; }
    bool               is_empty_list() const { return kind == List && list.empty(); }
    bool               is_non_empty_list() const { return kind == List && !list.empty(); }
    bool               is_partial() const { return kind == Part; }
    const std::function<std::string()> &partial_value() const { return part; }
    const Data        *next_list_item() const {
        if (pos >= list.size()) { pos = 0; return nullptr; }
        return &list[pos++];
    }
};
using ns       = kainjow::mustache_ns<std::string, Data>;
using Mustache = ns::mustache;

struct Node {
    enum T { Text, Var, Raw3, RawAmp, Sec, Inv, Comment, Partial, Delim } t = Text;
    std::string       name; // also text
    std::vector<Node> kids;
};

static std::string refEscape(const std::string &s) {
    std::string o;
    for (char c : s) {
        if (c == '&') o += "&amp;";
        else if (c == '<') o += "&lt;";
        else if (c == '>') o += "&gt;";
        else if (c == '"') o += "&quot;";
        else if (c == '\'') o += "&apos;";
        else o += c;
    }
    return o;
}
static const char *kNames[] = { "a", "b", "c", "list", "obj", "flag", "x", "deep" };

struct Gen {
    vp::Rng &r;
    std::map<std::string, std::vector<Node>> partials;
    std::string ws() { return r.str(" ", 0, 2); }
    std::string name() {
        if (r.chance(8)) return ".";
        std::string n = r.pick(kNames);
        while (r.chance(20)) n += std::string(".") + r.pick(kNames);
        return n;
    }
    std::string text() {
        static const std::string_view al[] = { "abcXYZ 019.,;:&<>\"'/#^!=-_", "}{ab", " \t\nab", "\xc3\xa4\xff\x01yz" };
        std::string                   s    = r.str(al[r.below(4)], 1, 8);
        for (std::size_t p; (p = s.find("{{")) != std::string::npos;) s.replace(p, 2, "{ ");
        return s;
    }
    std::vector<Node> nodes(int depth) {
        std::vector<Node> v;
        auto              n = r.below(depth > 2 ? 3 : 6);
        for (std::size_t i = 0; i < n; ++i) {
            Node k;
            switch (r.below(depth >= 4 ? 5 : 9)) {
            case 0: case 1: k.t = Node::Text; k.name = text(); break;
            case 2: k.t = Node::Var; k.name = name(); break;
            case 3: k.t = Node::Raw3; k.name = name(); break;
            case 4: k.t = r.chance(70) ? Node::RawAmp : Node::Comment; k.name = name(); break;
            case 5: case 6: k.t = Node::Sec; k.name = name(); k.kids = nodes(depth + 1); break;
            case 7: k.t = Node::Inv; k.name = name(); k.kids = nodes(depth + 1); break;
            default: k.t = Node::Partial; k.name = r.pick(std::vector<std::string>{ "p0", "p1", "nopartial" }); if (depth < 0) k.t = Node::Comment; break;
            }
            if (depth < 0 && k.t == Node::Partial) k.t = Node::Comment;
            v.push_back(std::move(k));
        }
        return v;
    }
    Data data(int depth) {
        Data d;
        switch (r.below(depth > 2 ? 3 : 6)) {
        case 0: case 1: d.kind = Data::Str; d.s = r.str("ab&<>\"'{} #/\n", 0, 6); if (r.chance(10)) d.s = r.bytes(1, 6); break;
        case 2: d.kind = Data::Bool; d.b = r.chance(50); break;
        case 3: case 4: d.kind = Data::Obj; for (auto *n : kNames) if (r.chance(45)) d.obj[n] = data(depth + 1); break;
        default: d.kind = Data::List; for (std::size_t i = r.below(4); i > 0; --i) d.list.push_back(data(depth + 1)); break;
        }
        return d;
    }
};

static void emit(vp::Rng &r, const std::vector<Node> &v, std::string &o, const std::string &B = "{{", const std::string &E = "}}") {
    auto sp = [&] { return r.str(" ", 0, 2); };
    for (auto &k : v) {
        switch (k.t) {
        case Node::Text: o += k.name; break;
        case Node::Var: o += B + sp() + k.name + sp() + E; break;
        case Node::Raw3: if (B == "{{") o += "{{{" + sp() + k.name + sp() + "}}}"; else o += B + "&" + k.name + E; break;
        case Node::RawAmp: o += B + sp() + "&" + sp() + k.name + sp() + E; break;
        case Node::Comment: o += B + "! " + k.name + " anything" + E; break;
        case Node::Partial: o += B + ">" + sp() + k.name + sp() + E; break;
        case Node::Sec:
        case Node::Inv:
            o += B + sp() + (k.t == Node::Sec ? "#" : "^") + sp() + k.name + sp() + E;
            emit(r, k.kids, o, B, E);
            o += B + sp() + "/" + sp() + k.name + sp() + E;
            break;
        case Node::Delim: break;
        }
    }
}

struct Ref {
    std::vector<const Data *>                       stack; // innermost last
    const std::map<std::string, std::vector<Node>> *partials;
    std::set<const Data *> iterating; // the data interface has one cursor per list: a list cannot be iterated inside itself
    bool                   reentered = false;
    const Data *look(const std::string &name) {
        if (name == ".") return stack.back();
        std::vector<std::string> parts;
        std::string              cur;
        for (char c : name) { if (c == '.') { parts.push_back(cur); cur.clear(); } else cur += c; }
        parts.push_back(cur);
        for (auto it = stack.rbegin(); it != stack.rend(); ++it) {
            const Data *d = *it;
            for (auto &p : parts) { d = d->get(p); if (!d) break; }
            if (d) return d;
        }
        return nullptr;
    }
    void run(const std::vector<Node> &v, std::string &o) {
        for (auto &k : v) {
            const Data *d = nullptr;
            switch (k.t) {
            case Node::Text: o += k.name; break;
            case Node::Var: if ((d = look(k.name)) && d->kind == Data::Str) o += refEscape(d->s); break;
            case Node::Raw3: case Node::RawAmp: if ((d = look(k.name)) && d->kind == Data::Str) o += d->s; break;
            case Node::Sec:
                d = look(k.name);
                if (!d || d->is_false() || d->is_empty_list()) break;
                if (d->kind == Data::List) { if (!iterating.insert(d).second) { reentered = true; return; } for (auto &i : d->list) { stack.push_back(&i); run(k.kids, o); stack.pop_back(); } iterating.erase(d); }
                else { stack.push_back(d); run(k.kids, o); stack.pop_back(); }
                break;
            case Node::Inv:
                d = look(k.name);
                if (!d || d->is_false() || d->is_empty_list()) { if (d) stack.push_back(d); run(k.kids, o); if (d) stack.pop_back(); }
                break;
            case Node::Partial: if (auto it = partials->find(k.name); it != partials->end()) run(it->second, o); break;
            default: break;
            }
        }
    }
};
// the standalone-tag rule only ever drops lines made of blanks: the comparison disregards such lines
static std::string noBlankLines(const std::string &s) {
    std::string o, line;
    auto        flush = [&](bool nl) { if (line.find_first_not_of(" \t\r") != std::string::npos) { o += line; if (nl) o += '\n'; } line.clear(); };
    for (char c : s) { if (c == '\n') flush(true); else line += c; }
    flush(false);
    while (!o.empty() && o.back() == '\n') o.pop_back();
    return o;
}

static void m01(vp::Ctx &c) {
    auto &r = c.rng;
    // every value text passes through {{x}} escaped and through {{{x}}} / {{&x}} untouched
    for (std::uint64_t i = 0; i < vp::scaled(6000); ++i) {
        Data root; root.kind = Data::Obj;
        std::string v = i < 256 ? std::string(1, static_cast<char>(i)) : (r.chance(50) ? r.str("&<>\"'ab{}\n ", 1, 12) : r.bytes(1, 20));
        root.obj["v"] = Data{ .kind = Data::Str, .s = v };
        c.crumb("escape", v);
        c.distinct("e" + v);
        auto out = [&](const std::string &t) { Mustache m(t); return m.is_valid() ? m.render(root) : "<invalid>"; };
        VP_CHECK(out("[{{v}}]") == "[" + refEscape(v) + "]", "escape-differs", v + " -> " + out("[{{v}}]"));
        VP_CHECK(out("[{{{v}}}]") == "[" + v + "]", "raw-differs", v + " -> " + out("[{{{v}}}]"));
        VP_CHECK(out("[{{&v}}]") == "[" + v + "]", "raw-differs", v + " -> " + out("[{{&v}}]"));
        VP_CHECK(out("{{=<% %>=}}[<%v%>][<%&v%>]<%={{ }}=%>[{{v}}]") == "[" + refEscape(v) + "][" + v + "][" + refEscape(v) + "]", "custom-delimiter-differs", v);
        VP_CHECK(ns::html_escape(v) == refEscape(v), "escape-differs", v);
        Mustache up("[{{v}}|{{{v}}}]");
        up.set_custom_escape([](const std::string &s) { return "E" + std::to_string(s.size()); });
        VP_CHECK(up.render(root) == "[E" + std::to_string(v.size()) + "|" + v + "]", "custom-escape-differs", v);
    }
    // generated templates against a reference evaluator
    for (std::uint64_t i = 0; i < vp::scaled(12000); ++i) {
        Gen  g{ r, {} };
        g.partials["p0"] = g.nodes(-1);
        g.partials["p1"] = g.nodes(-1);
        std::function<void(std::vector<Node> &)> flat = [&](std::vector<Node> &n) { for (auto &x : n) { if (x.t == Node::Partial) x.t = Node::Comment; flat(x.kids); } };
        for (auto &[k, v] : g.partials) flat(v); // partials of this workload do not nest
        auto ast  = g.nodes(0);
        Data root = g.data(0);
        if (root.kind != Data::Obj) { Data d; d.kind = Data::Obj; for (auto *n : kNames) if (r.chance(60)) d.obj[n] = g.data(1); root = std::move(d); }
        for (auto &[k, v] : g.partials) {
            std::string t; emit(r, v, t);
            Data p; p.kind = r.chance(50) ? Data::Part : Data::Str;
            p.s = t; p.part = [t] { return t; };
            root.obj[k] = p;
        }
        std::string tmpl;
        bool        custom = r.chance(15);
        if (custom) { tmpl = "{{=<| |>=}}"; emit(r, ast, tmpl, "<|", "|>"); if (tmpl.find("<<|") != std::string::npos || tmpl.find("|>>") != std::string::npos) continue; }
        else emit(r, ast, tmpl);
        // texts ending in '{' before a tag or starting with '}' after one would form other tags
        if (tmpl.find("{{{{") != std::string::npos || tmpl.find("}}}}") != std::string::npos) continue;
        bool ambiguous = false;
        for (std::size_t p = 0; (p = tmpl.find("{{{", p)) != std::string::npos; ++p)
            if (tmpl.find("}}}", p) == std::string::npos || (p + 3 < tmpl.size() && !(std::isalpha(static_cast<unsigned char>(tmpl[p + 3])) || tmpl[p + 3] == ' ' || tmpl[p + 3] == '.'))) ambiguous = true;
        std::function<void(const std::vector<Node> &, bool)> scan = [&](const std::vector<Node> &v, bool) {
            for (auto &k : v) { if (k.t == Node::Text && (k.name.front() == '}' || k.name.back() == '{' || (custom && (k.name.back() == '<' || k.name.front() == '>')))) ambiguous = true; scan(k.kids, false); }
        };
        scan(ast, true);
        for (auto &[k, v] : g.partials) scan(v, true);
        if (ambiguous) continue;
        c.crumb("template", tmpl);
        Mustache m(tmpl);
        VP_CHECK(m.is_valid(), "valid-template-rejected", tmpl + " : " + m.error_message());
        if (!m.is_valid()) continue;
        std::string want;
        Ref         ref{ { &root }, &g.partials };
        ref.run(ast, want);
        if (ref.reentered) continue;
        auto got = m.render(root);
        VP_CHECK(noBlankLines(got) == noBlankLines(want), "render-differs", "template <" + tmpl + "> gave <" + got + "> expected <" + want + ">");
        auto again = m.render(root);
        VP_CHECK(again == got, "render-not-repeatable", tmpl);
        std::ostringstream os;
        m.render(root, os);
        VP_CHECK(os.str() == got, "stream-render-differs", tmpl);
        if (ast.size() > 1) c.distinct(tmpl);
        if (i < 3) c.sample(tmpl);
        c.count("templates");
        if (!got.empty()) c.count("non_empty_output");
    }
    // structural errors are reported, nothing is rendered, and no input makes it crash
    for (std::uint64_t i = 0; i < vp::scaled(40000); ++i) {
        static const char *tok[] = { "{{", "}}", "{{{", "}}}", "#", "^", "/", "&", ">", "!", "=", " ", "a", "b", ".", "\n", "{{#a}}", "{{/a}}", "{{^b}}", "{{/b}}", "{{=", "=}}", "<% %>", "\r\n", "\t", "{", "}" };
        std::string t;
        for (auto n = 1 + r.below(9); n > 0; --n) t += r.pick(tok);
        if (r.chance(10)) t += r.bytes(1, 4);
        c.crumb("arbitrary-template", t);
        Mustache m(t);
        Data     root; root.kind = Data::Obj;
        root.obj["a"] = Data{ .kind = Data::Bool, .b = true };
        auto out = m.render(root);
        c.distinct(t);
        if (!m.is_valid()) { VP_CHECK(out.empty(), "invalid-template-rendered", t + " -> " + out); c.count("invalid_templates"); }
        else {
            c.eval();
            // a template with no "{{" at all is copied
            if (t.find("{{") == std::string::npos) VP_CHECK(out == t, "plain-text-changed", t + " -> " + out);
        }
    }
    for (auto *t : { "{{#a}}x", "x{{/a}}", "{{#a}}x{{/b}}", "{{^a}}", "{{#a}}{{#b}}{{/a}}{{/b}}", "{{a", "{{{a}}", "{{=a=}}", "{{=a b", "{{#a}}{{/a}}{{/a}}", "{{#a}}{{/a", "{{= a =}}" }) {
        Mustache m{ std::string(t) };
        VP_CHECK(!m.is_valid() && !m.error_message().empty(), "malformed-template-accepted", t);
    }
    for (std::uint64_t i = 0; i < vp::scaled(1500); ++i) { // unbalanced sections, generated
        Gen         g{ r, {} };
        auto        ast = g.nodes(0);
        std::string t;
        emit(r, ast, t);
        std::string un = r.chance(50) ? t + "{{#zz}}" : (r.chance(50) ? "{{/zz}}" + t : t + "{{#zz}}{{/yy}}");
        if (un.find("{{{{") != std::string::npos || un.find("}}}}") != std::string::npos) continue;
        c.crumb("unbalanced", un);
        Mustache m(un);
        VP_CHECK(!m.is_valid(), "unbalanced-template-accepted", un);
    }
}

// ------------------------------------------------------------------------------------------------ N01
template<typename T>
static T ref(const std::string &s) { if constexpr (std::is_same_v<T, float>) return std::strtof(s.c_str(), nullptr); else return std::strtod(s.c_str(), nullptr); }
template<typename T>
static bool same(T a, T b) { return (std::isnan(a) && std::isnan(b)) || (a == b && std::signbit(a) == std::signbit(b)); }
template<typename T>
static std::string show(T v) { char b[80]; std::snprintf(b, sizeof b, "%.20g (%a)", static_cast<double>(v), static_cast<double>(v)); return b; }

// the number grammar of from_chars(general): how many characters belong to the number (0 = none)
static std::size_t grammar(std::string_view s, bool &special) {
    special       = false;
    std::size_t i = 0;
    if (i < s.size() && s[i] == '-') ++i;
    auto lower = [](char x) { return static_cast<char>(x | 0x20); };
    auto ieq   = [&](std::size_t p, std::string_view w) { if (s.size() < p + w.size()) return false; for (std::size_t k = 0; k < w.size(); ++k) if (lower(s[p + k]) != w[k]) return false; return true; };
    std::size_t digits = 0;
    while (i < s.size() && std::isdigit(static_cast<unsigned char>(s[i]))) { ++i; ++digits; }
    if (i < s.size() && s[i] == '.') { std::size_t j = i + 1, d2 = 0; while (j < s.size() && std::isdigit(static_cast<unsigned char>(s[j]))) { ++j; ++d2; } if (digits || d2) { i = j; digits += d2; } }
    if (!digits) { if (ieq(i, "inf") || ieq(i, "nan")) special = true; return 0; }
    if (i < s.size() && lower(s[i]) == 'e') {
        std::size_t j = i + 1;
        if (j < s.size() && (s[j] == '-' || s[j] == '+')) ++j;
        std::size_t k = j;
        while (k < s.size() && std::isdigit(static_cast<unsigned char>(s[k]))) ++k;
        if (k > j) i = k;
    }
    return i;
}

template<typename T>
static void number(vp::Ctx &c, const std::string &text, const char *ty) {
    std::vector<char> exact(text.begin(), text.end()); // heap buffer of exactly the text: reads beyond it are seen by ASan
    c.crumb(std::string("number-") + ty, text);
    T    v  = static_cast<T>(42);
    auto r  = fast_float::from_chars(exact.data(), exact.data() + exact.size(), v);
    bool sp = false;
    auto n  = grammar(text, sp);
    c.eval();
    if (r.ptr < exact.data() || r.ptr > exact.data() + exact.size()) { c.violation("end-pointer-outside", text); return; }
    auto used = static_cast<std::size_t>(r.ptr - exact.data());
    if (sp) {
        T    w  = 42;
        auto rs = std::from_chars(text.data(), text.data() + text.size(), w);
        VP_CHECK((r.ec == std::errc()) == (rs.ec == std::errc()) && (r.ec != std::errc() || (same(v, w) && used == static_cast<std::size_t>(rs.ptr - text.data()))), "inf-nan-differs", text);
        return;
    }
    if (n == 0) { VP_CHECK(r.ec != std::errc(), std::string("non-number-accepted"), text + " -> " + show(v)); return; }
    if (r.ec == std::errc::invalid_argument) { c.violation("number-rejected", text); return; }
    VP_CHECK(used == n, "end-of-number-differs", text + " used " + std::to_string(used) + " of expected " + std::to_string(n));
    T want = ref<T>(text.substr(0, n));
    VP_CHECK(same(v, want), std::string("value-differs-") + ty, text.substr(0, n) + " -> " + show(v) + " expected " + show(want));
}

static void n01(vp::Ctx &c) {
    auto &r = c.rng;
    std::setlocale(LC_ALL, "C");
    auto both = [&](const std::string &t) {
        number<double>(c, t, "double");
        number<float>(c, t, "float");
        c.distinct(t);
    };
    for (std::uint64_t i = 0; i < vp::scaled(60000); ++i) {
        std::string t;
        switch (r.below(9)) {
        case 0: { std::uint64_t b = r.next(); double d; std::memcpy(&d, &b, 8); if (!std::isfinite(d)) d = 1; char s[64]; std::snprintf(s, sizeof s, "%.*e", static_cast<int>(r.below(22)), d); t = s; break; }
        case 1: { std::uint32_t b = static_cast<std::uint32_t>(r.next()); float d; std::memcpy(&d, &b, 4); if (!std::isfinite(d)) d = 1; char s[64]; std::snprintf(s, sizeof s, "%.*g", static_cast<int>(1 + r.below(20)), static_cast<double>(d)); t = s; break; }
        case 2: t = (r.chance(30) ? "-" : "") + r.str("0123456789", 0, 25) + (r.chance(70) ? "." : "") + r.str("0123456789", 0, 25) + (r.chance(50) ? "e" + std::string(r.chance(50) ? "-" : "") + r.str("0123456789", 1, 3) : ""); break;
        case 3: { // exact half-way point between two neighbouring doubles, nudged
            std::uint64_t b = (r.next() & 0x000fffffffffffffull) | (static_cast<std::uint64_t>(1023 + r.range(-60, 60)) << 52); double d; std::memcpy(&d, &b, 8);
            long double   h = (static_cast<long double>(d) + static_cast<long double>(std::nextafter(d, INFINITY))) / 2;
            char          s[256]; std::snprintf(s, sizeof s, "%.*Le", 60 + static_cast<int>(r.below(60)), h); t = s;
            if (auto e = t.find('e'); e != std::string::npos && r.chance(60)) t.insert(e, r.chance(50) ? "1" : "00000000000000000000000000000001");
            break; }
        case 4: { // half-way for float
            std::uint32_t b = (static_cast<std::uint32_t>(r.next()) & 0x007fffffu) | (static_cast<std::uint32_t>(127 + r.range(-30, 30)) << 23); float d; std::memcpy(&d, &b, 4);
            double        h = (static_cast<double>(d) + static_cast<double>(std::nextafterf(d, INFINITY))) / 2;
            char          s[256]; std::snprintf(s, sizeof s, "%.*f", 60, h); t = s;
            if (r.chance(50)) t += "1";
            break; }
        case 5: { static const char *sp[] = { "inf", "-inf", "nan", "-nan", "INF", "Infinity", "infinit", "NaN", "nan(", "nan()", "nan(ab)", "in", "na", "-", "", ".", "-.", "e5", "1e", "1e+", "1.e5", ".5", "5.", "0x10", "1_0", "--1", "+1", " 1", "1 ", "1,5", "00012", "-0", "-0.0e5", "1e400", "-1e400", "1e-400", "4.9e-324", "2.4703282292062327e-324", "2.4703282292062328e-324", "1.7976931348623157e308", "1.7976931348623159e308", "2.2250738585072011e-308", "9007199254740993", "9007199254740992.5", "1.00000017881393432617187499", "3.4028236e38", "1.4e-45", "7.0064923216240853e-46", "7.0064923216240854e-46", "1e99999999999999999999", "0e99999999999999999999", "1e-99999999999999999999" }; t = r.pick(sp); break; }
        case 6: t = r.str("0123456789", 1, 3) + std::string(r.below(60), '0') + r.str("0123456789", 0, 40) + (r.chance(40) ? "." + r.str("0123456789", 0, 40) : "") + (r.chance(30) ? "e-" + std::to_string(r.below(120)) : ""); break;
        case 7: t = std::string(r.chance(50) ? "0." : "") + std::string(r.below(340), '0') + r.str("123456789", 1, 30) + (r.chance(50) ? "e" + std::to_string(r.range(-340, 310)) : ""); break;
        default: t = r.str("0123456789.eE-+infa", 0, 12); break;
        }
        if (r.chance(15)) t += r.str(",}] \nabc-", 1, 3);
        both(t);
        if (i < 3) c.sample(t);
    }
    for (int e = -330; e <= 310; ++e) for (auto *m : { "1", "9.999999999999999", "4.5", "17976931348623157", "22250738585072014" }) both(std::string(m) + "e" + std::to_string(e));
    // all short texts over the number alphabet
    const std::string al = "01.e-+ ,";
    for (std::size_t L = 1; L <= 4; ++L) {
        std::size_t n = 1; for (std::size_t k = 0; k < L; ++k) n *= al.size();
        for (std::size_t i = static_cast<std::size_t>(c.shard); i < n; i += static_cast<std::size_t>(c.shards)) {
            std::string t; auto x = i; for (std::size_t k = 0; k < L; ++k) { t += al[x % al.size()]; x /= al.size(); }
            both(t);
        }
    }
    c.count("exhaustive_short_texts_up_to", 4);
}

// ------------------------------------------------------------------------------------------------ G01
template<typename C>
static std::string refList(const C &c) { std::string o = "["; bool f = true; for (auto &x : c) { if (!f) o += ", "; f = false; if constexpr (requires { x.begin(); } && !std::is_same_v<std::remove_cvref_t<decltype(x)>, std::string>) o += refList(x); else if constexpr (std::is_same_v<std::remove_cvref_t<decltype(x)>, std::string>) o += x; else o += std::format("{}", x); } return o + "]"; }

static void g01(vp::Ctx &c) {
    auto &r = c.rng;
    for (std::uint64_t i = 0; i < vp::scaled(4000); ++i) {
        std::vector<int>          vi;
        std::vector<std::string>  vs;
        std::vector<double>       vd;
        std::vector<std::vector<long>> vv;
        for (auto n = r.below(7); n > 0; --n) vi.push_back(static_cast<int>(r.next()));
        for (auto n = r.below(7); n > 0; --n) vs.push_back(r.str("ab, []{}%\"\n", 0, 6));
        for (auto n = r.below(7); n > 0; --n) vd.push_back(static_cast<double>(r.range(-1000, 1000)) / 8);
        for (auto n = r.below(4); n > 0; --n) { vv.emplace_back(); for (auto m = r.below(4); m > 0; --m) vv.back().push_back(r.range(-5, 5)); }
        c.crumb("format", refList(vs));
        VP_CHECK(std::format("{}", vi) == refList(vi), "range-format-differs", std::format("{}", vi));
        VP_CHECK(std::format("{}", vs) == refList(vs), "range-format-differs", std::format("{}", vs));
        VP_CHECK(std::format("{}", vd) == refList(vd), "range-format-differs", std::format("{}", vd));
        VP_CHECK(std::format("<{}|{}>", vv, vi) == "<" + refList(vv) + "|" + refList(vi) + ">", "range-format-differs", std::format("{}", vv));
        std::list<int> li(vi.begin(), vi.end());
        std::deque<std::string> ds(vs.begin(), vs.end());
        VP_CHECK(std::format("{}", li) == refList(vi) && std::format("{}", ds) == refList(vs), "range-format-differs", "list/deque");
        std::string sep = r.str(", ;-|{}", 0, 3), want;
        for (std::size_t k = 0; k < vs.size(); ++k) want += (k ? sep : "") + vs[k];
        VP_CHECK(opencmw::join(vs, sep) == want, "join-differs", opencmw::join(vs, sep) + " expected " + want);
        std::string wi;
        for (std::size_t k = 0; k < vi.size(); ++k) wi += (k ? ", " : "") + std::to_string(vi[k]);
        VP_CHECK(opencmw::join(vi) == wi, "join-differs", opencmw::join(vi));
        std::optional<int> o; if (r.chance(50)) o = static_cast<int>(r.range(-99, 99));
        VP_CHECK(std::format("{}", o) == (o ? std::to_string(*o) : "nullopt"), "optional-format-differs", std::format("{}", o));
        if (o) VP_CHECK(std::format("{:>8}", o) == std::format("{:>8}", *o), "optional-format-differs", "with a width");
        std::optional<std::string> os; if (r.chance(50)) os = r.str("ab{}", 0, 5);
        VP_CHECK(std::format("{}", os) == (os ? *os : "nullopt"), "optional-format-differs", std::format("{}", os));
        std::pair<int, std::string> p{ static_cast<int>(r.range(-9, 9)), r.str("ab{},", 0, 5) };
        VP_CHECK(std::format("{}", p) == "(" + std::to_string(p.first) + ", " + p.second + ")", "pair-format-differs", std::format("{}", p));
        std::vector<std::pair<int, int>> vp_; for (auto n = r.below(4); n > 0; --n) vp_.emplace_back(static_cast<int>(r.below(9)), static_cast<int>(r.below(9)));
        std::string wp = "["; for (std::size_t k = 0; k < vp_.size(); ++k) wp += (k ? ", (" : "(") + std::to_string(vp_[k].first) + ", " + std::to_string(vp_[k].second) + ")"; wp += "]";
        VP_CHECK(std::format("{}", vp_) == wp, "range-format-differs", std::format("{}", vp_));
        // bounded output sinks receive exactly the same text
        auto full = std::format("{}", vs);
        std::vector<char> buf(full.size());
        auto res = std::format_to_n(buf.data(), static_cast<std::ptrdiff_t>(buf.size()), "{}", vs);
        VP_CHECK(static_cast<std::size_t>(res.size) == full.size() && std::string(buf.begin(), buf.end()) == full, "bounded-format-differs", full);
        c.distinct(full + wi + wp);
        if (i < 3) c.sample(full);
    }
}

void vp_main(vp::Ctx &c) {
    if (c.mode == "m01") m01(c);
    else if (c.mode == "n01") n01(c);
    else if (c.mode == "g01") g01(c);
}
