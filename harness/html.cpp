// S09: HTML pages rendered from objects: the service's own template or the default one, with exactly the values of the objects, from any thread.
#include "vp.hpp"
#include <sstream>
#include <iostream>
#include <MustacheSerialiser.hpp>
#include <MultiArray.hpp>
#include <units/isq/si/length.h>

using vp::ctx;
using namespace opencmw;

struct Item { std::string label; double d = 0; std::vector<std::string> subs; };
struct Page {
    std::string text; std::int32_t n = 0; std::int64_t big = 0; double d = 0; std::vector<std::string> names; std::vector<std::int32_t> nums; std::set<std::string> tags; Item item; std::vector<Item> items;
    Annotated<std::string, NoUnit, "a description"> ann; MultiArray<double, 2> arr; MIME::MimeType mime = MIME::JSON; TimingCtx tc;
};
struct Plain { std::string a; std::int32_t b = 0; bool c = false; Annotated<std::string, NoUnit, "say <why>"> e; std::vector<std::int32_t> v; };
ENABLE_REFLECTION_FOR(Item, label, d, subs)
ENABLE_REFLECTION_FOR(Page, text, n, big, d, names, nums, tags, item, items, ann, arr, mime, tc)
ENABLE_REFLECTION_FOR(Plain, a, b, c, e, v)

static std::string esc(const std::string &s) {
    std::string o;
    for (char c : s) o += c == '&' ? "&amp;" : c == '<' ? "&lt;" : c == '>' ? "&gt;" : c == '"' ? "&quot;" : c == '\'' ? "&apos;" : std::string(1, c);
    return o;
}
static std::string word(vp::Rng &r) { return r.chance(60) ? r.str("ab<>&\"'{}|= \n/", 0, 12) : r.str("abc019", 0, 8); }
static Item        genItem(vp::Rng &r) {
    Item i{ word(r), double(r.range(-1000, 1000)) / 16, {} };
    for (auto n = r.below(3); n > 0; n--) i.subs.push_back(word(r));
    return i;
}
static Page genPage(vp::Rng &r) {
    Page p;
    p.text = word(r), p.n = int(r.next()), p.big = std::int64_t(r.next()), p.d = double(r.range(-100000, 100000)) / 32, p.item = genItem(r), p.ann = word(r);
    for (auto n = r.below(4); n > 0; n--) p.names.push_back(word(r));
    for (auto n = r.below(4); n > 0; n--) p.nums.push_back(int(r.below(1000)));
    for (auto n = r.below(4); n > 0; n--) p.tags.insert(word(r));
    for (auto n = r.below(4); n > 0; n--) p.items.push_back(genItem(r));
    const auto           x = r.below(4), y = r.below(4);
    std::vector<double>  e(x * y);
    for (auto &v : e) v = double(r.range(-100, 100)) / 4;
    p.arr  = MultiArray<double, 2>(std::move(e), { std::uint32_t(x), std::uint32_t(y) });
    p.mime = r.pick(std::vector<MIME::MimeType>{ MIME::JSON, MIME::HTML, MIME::BINARY });
    p.tc   = r.chance(50) ? TimingCtx() : TimingCtx(int(r.below(9)), int(r.below(9)), -1, -1);
    return p;
}
// a template is a sequence of pieces; every piece knows its text and what it shows for a page
struct Piece { std::string text; std::function<std::string(const Page &)> show; };
using Tmpl = std::vector<Piece>;
static Tmpl genTmpl(vp::Rng &r, const std::string &o) {
    static std::vector<std::function<Piece(vp::Rng &, const std::string &)>> kinds{
        [](vp::Rng &q, const std::string &) { std::string t = q.str("xyz<b> &\n", 0, 10); return Piece{ t, [t](const Page &) { return t; } }; },
        [](vp::Rng &, const std::string &o) { return Piece{ "{{" + o + ".text}}", [](const Page &p) { return esc(p.text); } }; },
        [](vp::Rng &, const std::string &o) { return Piece{ "{{{" + o + ".text}}}", [](const Page &p) { return p.text; } }; },
        [](vp::Rng &, const std::string &o) { return Piece{ "{{&" + o + ".text}}", [](const Page &p) { return p.text; } }; },
        [](vp::Rng &, const std::string &o) { return Piece{ "{{" + o + ".n}}|{{" + o + ".big}}", [](const Page &p) { return std::to_string(p.n) + "|" + std::to_string(p.big); } }; },
        [](vp::Rng &, const std::string &o) { return Piece{ "{{" + o + ".d}}", [](const Page &p) { return std::to_string(p.d); } }; },
        [](vp::Rng &, const std::string &o) { return Piece{ "{{#" + o + ".names}}<{{.}}>{{/" + o + ".names}}", [](const Page &p) { std::string s; for (auto &x : p.names) s += "<" + esc(x) + ">"; return s; } }; },
        [](vp::Rng &, const std::string &o) { return Piece{ "{{#" + o + ".nums}}{{{.}}},{{/" + o + ".nums}}", [](const Page &p) { std::string s; for (auto &x : p.nums) s += std::to_string(x) + ","; return s; } }; },
        [](vp::Rng &, const std::string &o) { return Piece{ "{{#" + o + ".tags}}({{any}}){{/" + o + ".tags}}", [](const Page &p) { std::string s; for (auto &x : p.tags) s += "(" + esc(x) + ")"; return s; } }; },
        [](vp::Rng &, const std::string &o) { return Piece{ "{{^" + o + ".names}}none{{/" + o + ".names}}", [](const Page &p) { return std::string(p.names.empty() ? "none" : ""); } }; },
        [](vp::Rng &, const std::string &o) { return Piece{ "{{#" + o + ".item}}{{label}}:{{d}}{{/" + o + ".item}}", [](const Page &p) { return esc(p.item.label) + ":" + std::to_string(p.item.d); } }; },
        [](vp::Rng &, const std::string &o) { return Piece{ "{{" + o + ".item.label}}", [](const Page &p) { return esc(p.item.label); } }; },
        [](vp::Rng &, const std::string &o) { return Piece{ "{{#" + o + ".items}}{{label}}={{d}}{{#subs}}+{{.}}{{/subs}};{{/" + o + ".items}}", [](const Page &p) { std::string s; for (auto &x : p.items) { s += esc(x.label) + "=" + std::to_string(x.d); for (auto &y : x.subs) s += "+" + esc(y); s += ";"; } return s; } }; },
        [](vp::Rng &, const std::string &o) { return Piece{ "{{" + o + ".ann}}", [](const Page &p) { return esc(p.ann.value()); } }; },
        [](vp::Rng &, const std::string &o) { return Piece{ "{{#" + o + ".arr}}{{.}} {{/" + o + ".arr}}", [](const Page &p) { std::string s; for (auto x : p.arr.elements()) s += std::to_string(x) + " "; return s; } }; },
        [](vp::Rng &, const std::string &o) { return Piece{ "{{&" + o + ".mime}}", [](const Page &p) { return std::string(p.mime.typeName()); } }; },
        [](vp::Rng &, const std::string &o) { return Piece{ "{{&" + o + ".tc}}", [](const Page &p) { return p.tc.toString(); } }; },
        [](vp::Rng &, const std::string &o) { return Piece{ "{{" + o + ".missing}}", [](const Page &) { return std::string(); } }; },
    };
    Tmpl t;
    for (auto n = r.range(1, 8); n > 0; n--) t.push_back(r.pick(kinds)(r, o));
    return t;
}
static std::string textOf(const Tmpl &t) { std::string s; for (auto &p : t) s += p.text; return s; }
static std::string shown(const Tmpl &t, const Page &p) { std::string s; for (auto &x : t) s += x.show(p); return s; }

void vp_main(vp::Ctx &c) {
    auto      &files = cmrc::detail::files();
    vp::Rng    g(c.seed * 17 + std::uint64_t(c.shard));
    const auto N = vp::scaled(std::getenv("VP_LIGHT") ? 300 : 2000) / c.shards;
    std::vector<Tmpl> one, two; // services with their own template: one shows one object, the other two
    for (std::uint64_t i = 0; i < N; i++) {
        one.push_back(genTmpl(g, "result")), files["assets/mustache/one" + std::to_string(i) + ".mustache"] = textOf(one.back());
        auto a = genTmpl(g, "result"), b = genTmpl(g, "input");
        two.push_back(a), files["assets/mustache/two" + std::to_string(i) + ".mustache"] = textOf(a) + "---" + textOf(b);
        two.push_back(b);
    }
    files["assets/mustache/default.mustache"] = "{{#result.fields}}[{{name}}:{{unit}}:{{description}}:{{&value}}]{{/result.fields}}{{result.typeName}}";
    const auto fs = cmrc::assets::get_filesystem();
    auto work = [&](std::uint64_t salt, std::uint64_t count) {
        vp::Rng r(salt);
        for (std::uint64_t i = 0; i < count && !c.anyViolation(); i++) {
            const auto k = r.below(N);
            Page       p = genPage(r), q = genPage(r);
            std::stringstream out;
            switch (r.below(4)) {
            case 0: case 1: {
                const auto name = "one" + std::to_string(k);
                mustache::serialise(fs, name, out, std::pair<std::string, const Page &>{ "result", p });
                VP_CHECK(out.str() == shown(one[k], p), "page-differs", textOf(one[k]) + "\n shows " + out.str() + "\n not " + shown(one[k], p));
                c.distinct(vp::mix(vp::fnv(textOf(one[k])), vp::fnv(out.str())));
                break;
            }
            case 2: {
                const auto name = "two" + std::to_string(k);
                mustache::serialise(fs, name, out, std::pair<std::string, const Page &>{ "result", p }, std::pair<std::string, const Page &>{ "input", q });
                const auto want = shown(two[2 * k], p) + "---" + shown(two[2 * k + 1], q);
                VP_CHECK(out.str() == want, "page-of-two-objects-differs", out.str() + "\n not " + want);
                c.distinct(vp::fnv(want));
                break;
            }
            default: {
                Plain x{ word(r), int(r.below(100000)) - 50000, r.chance(50), {}, {} };
                x.e = word(r);
                for (auto n = r.below(4); n > 0; n--) x.v.push_back(int(r.below(100)));
                mustache::serialise(fs, "nobody" + std::to_string(k), out, std::pair<std::string, const Plain &>{ "result", x });
                std::string v = "[";
                for (std::size_t j = 0; j < x.v.size(); j++) v += (j ? ", " : "") + std::to_string(x.v[j]);
                const auto want = "[a:::" + x.a + "][b:::" + std::to_string(x.b) + "][c:::" + (x.c ? "true" : "false") + "][e::" + esc("say <why>") + ":" + x.e.value() + "][v:::" + v + "]]Plain";
                VP_CHECK(out.str() == want, "default-page-differs", out.str() + "\n not " + want);
                c.distinct(vp::fnv(want));
            }
            }
            c.count("pages");
        }
    };
    work(c.seed * 31 + std::uint64_t(c.shard) + 5, N * 4);
    std::vector<std::thread> ts;
    for (int t = 0; t < 4; t++) ts.emplace_back([&, t] { work(c.seed * 101 + std::uint64_t(t * 7 + c.shard * 977), N * 2); });
    for (auto &t : ts) t.join();
    c.sample(textOf(one[0]));
}
