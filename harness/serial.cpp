// S02 binary round trip, S03 JSON, S04 YAML, S05 hostile data, S06 schema evolution and partial update, S07 query parameters
#include "vp.hpp"
#include <IoSerialiserCmwLight.hpp>
#include <IoSerialiserJson.hpp>
#include <IoSerialiserYAML.hpp>
#include <IoSerialiserYaS.hpp>
#include <QuerySerialiser.hpp>
#include <opencmw.hpp>
#include <bit>
#include <cmath>
#include <units/isq/si/length.h>
#include <units/isq/si/electric_current.h>

using namespace opencmw;
using units::isq::si::ampere;

namespace t {
struct Inner {
    std::int32_t       x = 0;
    std::string        s;
    double             d = 0;
    std::vector<float> vf;
};
struct Deep {
    std::string  name;
    Inner        inner;
    std::int64_t tail = 0;
};
struct All {
    bool                                   b   = false;
    std::int8_t                            i8  = 0;
    std::int16_t                           i16 = 0;
    std::int32_t                           i32 = 0;
    std::int64_t                           i64 = 0;
    float                                  f   = 0;
    double                                 d   = 0;
    std::string                            s;
    std::vector<bool>                      vb;
    std::vector<std::int8_t>               vi8;
    std::vector<std::int32_t>              vi32;
    std::vector<std::int64_t>              vi64;
    std::vector<double>                    vd;
    std::vector<std::string>               vs;
    std::array<std::int32_t, 3>            arr{};
    MultiArray<double, 2>                  m2;
    MultiArray<std::int32_t, 3>            m3;
    std::set<std::int32_t>                 set;
    std::map<std::string, std::int32_t>    mi;
    std::map<std::string, std::string>     ms;
    Annotated<double, units::isq::si::electric_current<ampere>, "an annotated value"> ann;
    Inner                                  inner;
    std::unique_ptr<std::int32_t>          up;
    std::shared_ptr<Inner>                 sp;
    Deep                                   deep;
    std::int32_t                           last = 0;
};
// older/newer layouts of the same data
struct Subset { // fields left out at the start, in the middle and at the end
    std::int16_t i16 = -7;
    std::string  s   = "unset";
    std::vector<double> vd;
    Inner        inner;
    std::set<std::int32_t> set; // N.B. an unknown set cannot be skipped in CmwLight data
};
struct Reordered { // same fields, other order
    std::int32_t              last = 0;
    Deep                      deep;
    std::vector<std::string>  vs;
    Inner                     inner;
    double                    d = 0;
    std::string               s;
    std::int8_t               i8 = 0;
    std::set<std::int32_t>    set;
};
struct Extended { // fields that the sender does not know
    std::int32_t             newFirst = 11;
    std::string              s;
    std::vector<std::int32_t> newMiddle{ 1, 2, 3 };
    std::int64_t             i64 = 0;
    Inner                    newInner;
    double                   d       = 0;
    std::string              newLast = "keep";
    std::set<std::int32_t>   set;
};
struct Wrong { // same names, other types
    std::string               i32 = "untouched";
    std::int64_t              s   = -5;
    std::vector<std::string>  vd{ "untouched" };
    double                    vs = -1.5;
    std::int32_t              i64 = -9;
    std::int32_t              last = 0;
    std::set<std::int32_t>    set;
};
struct WrongUnit {
    std::int32_t i32 = 0;
    Annotated<double, units::isq::si::length<units::isq::si::metre>, "another unit"> ann{ -3.5 };
    std::int32_t last = 0;
};
struct Small { std::string s; std::int32_t i32 = 0; std::vector<std::int32_t> vi32; double d = 0; std::array<double, 2> a2{}; };
struct YIn { std::int32_t x = 0; double d = 0; std::string s = "-"; };
struct Y {
    bool b = false; std::int32_t i32 = 0; std::int64_t i64 = 0; double d = 0; float f = 0; std::string s = "-"; std::vector<std::int32_t> vi; std::vector<double> vd; std::array<std::int32_t, 3> arr{}; std::set<std::int32_t> set; std::map<std::string, std::int32_t> mi; YIn inner; std::int32_t last = 0;
};
struct Query { std::int32_t i32 = 0; std::int64_t i64 = 0; std::int16_t i16 = 0; double d = 0; float f = 0; std::string s; bool flag = false; TimingCtx ctx; MIME::MimeType contentType = MIME::UNKNOWN; };
} // namespace t
ENABLE_REFLECTION_FOR(t::Inner, x, s, d, vf)
ENABLE_REFLECTION_FOR(t::Deep, name, inner, tail)
ENABLE_REFLECTION_FOR(t::All, b, i8, i16, i32, i64, f, d, s, vb, vi8, vi32, vi64, vd, vs, arr, m2, m3, set, mi, ms, ann, inner, up, sp, deep, last)
ENABLE_REFLECTION_FOR(t::Subset, i16, s, vd, inner, set)
ENABLE_REFLECTION_FOR(t::Reordered, last, deep, vs, inner, d, s, i8, set)
ENABLE_REFLECTION_FOR(t::Extended, newFirst, s, newMiddle, i64, newInner, d, newLast, set)
ENABLE_REFLECTION_FOR(t::Wrong, i32, s, vd, vs, i64, last, set)
ENABLE_REFLECTION_FOR(t::WrongUnit, i32, ann, last)
ENABLE_REFLECTION_FOR(t::Small, s, i32, vi32, d, a2)
ENABLE_REFLECTION_FOR(t::YIn, x, d, s)
ENABLE_REFLECTION_FOR(t::Y, b, i32, i64, d, f, s, vi, vd, arr, set, mi, inner, last)
ENABLE_REFLECTION_FOR(t::Query, i32, i64, i16, d, f, s, flag, ctx, contentType)

// ---- a canonical text of a value, independent of the serialisers
static std::string show(double v) { return std::isnan(v) ? "nan" : std::to_string(std::bit_cast<std::uint64_t>(v)); }
static std::string show(float v) { return std::isnan(v) ? "nan" : std::to_string(std::bit_cast<std::uint32_t>(v)); }
static std::string show(const std::string &v) { return std::to_string(v.size()) + ":" + v; }
template<std::integral T> static std::string show(T v) { return std::to_string(static_cast<long long>(v)); }
static std::string show(const t::Inner &v);
template<typename T> static std::string showAll(const T &c) { std::string o = "["; for (const auto &x : c) { if constexpr (std::is_same_v<T, std::vector<bool>>) o += x ? "1" : "0"; else o += show(x); o += ','; } return o + "]"; }
template<typename T> static std::string show(const std::vector<T> &v) { return showAll(v); }
template<typename T, std::size_t N> static std::string show(const std::array<T, N> &v) { return showAll(v); }
template<typename T> static std::string show(const std::set<T> &v) { return showAll(v); }
template<typename V> static std::string show(const std::map<std::string, V> &m) { std::string o = "{"; for (const auto &[k, v] : m) o += show(k) + "=" + show(v) + ","; return o + "}"; }
template<typename T, std::uint32_t N> static std::string show(const MultiArray<T, N> &v) {
    std::string o = "dims"; for (auto d : v.dimensions()) o += " " + std::to_string(d);
    o += " n " + std::to_string(v.element_count()) + " strides"; for (std::uint32_t i = 0; i < N; ++i) o += " " + std::to_string(v.stride(i));
    return o + showAll(v.elements());
}
static std::string show(const t::Inner &v) { return "(" + show(v.x) + ";" + show(v.s) + ";" + show(v.d) + ";" + show(v.vf) + ")"; }
static std::string show(const t::Deep &v) { return "(" + show(v.name) + ";" + show(v.inner) + ";" + show(v.tail) + ")"; }
using Fields = std::vector<std::pair<std::string, std::string>>;
static Fields fields(const t::All &a) {
    return { { "b", show(a.b) }, { "i8", show(a.i8) }, { "i16", show(a.i16) }, { "i32", show(a.i32) }, { "i64", show(a.i64) }, { "f", show(a.f) }, { "d", show(a.d) }, { "s", show(a.s) }, { "vb", show(a.vb) }, { "vi8", show(a.vi8) }, { "vi32", show(a.vi32) }, { "vi64", show(a.vi64) }, { "vd", show(a.vd) }, { "vs", show(a.vs) }, { "arr", show(a.arr) }, { "m2", show(a.m2) }, { "m3", show(a.m3) }, { "set", show(a.set) }, { "mi", show(a.mi) }, { "ms", show(a.ms) }, { "ann", show(static_cast<double>(a.ann.value())) }, { "inner", show(a.inner) }, { "up", a.up ? show(*a.up) : "null" }, { "sp", a.sp ? show(*a.sp) : "null" }, { "deep", show(a.deep) }, { "last", show(a.last) } };
}

// ---- generation
struct Dom { bool finite = false, safeText = false; };
template<std::integral T> static T num(vp::Rng &r) { switch (r.below(6)) { case 0: return 0; case 1: return std::numeric_limits<T>::max(); case 2: return std::numeric_limits<T>::min(); case 3: return static_cast<T>(r.range(-100, 100)); default: return static_cast<T>(r.next()); } }
template<std::floating_point T> static T flt(vp::Rng &r, bool finite) {
    using U = std::conditional_t<sizeof(T) == 8, std::uint64_t, std::uint32_t>;
    for (;;) {
        T v;
        switch (r.below(8)) { case 0: v = 0; break; case 1: v = static_cast<T>(-0.0); break; case 2: v = std::numeric_limits<T>::max(); break; case 3: v = std::numeric_limits<T>::denorm_min(); break; case 4: v = static_cast<T>(r.range(-1000, 1000)) / 8; break; default: v = std::bit_cast<T>(static_cast<U>(r.next())); }
        if (!finite || std::isfinite(v)) return v;
    }
}
static std::string text(vp::Rng &r, const Dom &d, std::size_t max = 30) {
    if (d.safeText) return r.str("abcXYZ 019.-_/\\\"\n\t\r\b\f\x01\x1f{}[],:#'\xc3\xa4", 0, max);
    return r.bytes(0, max);
}
static std::string mapKey(vp::Rng &r, const Dom &d) { return d.safeText ? r.str("abcXYZ 019.-_/{}[],:#'\xc3\xa4", 1, 12) : [&] { auto k = r.bytes(0, 10); std::erase(k, char(0)); return k; }(); } // keys are C strings
template<typename T, typename F> static std::vector<T> vec(vp::Rng &r, F f, std::size_t max = 12) { std::vector<T> v; auto n = r.chance(20) ? 0 : r.below(max); if (r.chance(3)) n = 200 + r.below(400); for (std::uint64_t i = 0; i < n; ++i) v.push_back(f()); return v; }
static void gen(vp::Rng &r, t::Inner &v, const Dom &d) { v.x = num<std::int32_t>(r); v.s = text(r, d); v.d = flt<double>(r, d.finite); v.vf = vec<float>(r, [&] { return flt<float>(r, d.finite); }); }
static void gen(vp::Rng &r, t::Deep &v, const Dom &d) { v.name = text(r, d); gen(r, v.inner, d); v.tail = num<std::int64_t>(r); }
static void gen(vp::Rng &r, t::All &a, const Dom &d) {
    a.b = r.chance(50); a.i8 = num<std::int8_t>(r); a.i16 = num<std::int16_t>(r); a.i32 = num<std::int32_t>(r); a.i64 = num<std::int64_t>(r);
    a.f = flt<float>(r, d.finite); a.d = flt<double>(r, d.finite); a.s = text(r, d, r.chance(5) ? 3000 : 30);
    a.vb = vec<bool>(r, [&] { return r.chance(50); }); a.vi8 = vec<std::int8_t>(r, [&] { return num<std::int8_t>(r); }); a.vi32 = vec<std::int32_t>(r, [&] { return num<std::int32_t>(r); });
    a.vi64 = vec<std::int64_t>(r, [&] { return num<std::int64_t>(r); }); a.vd = vec<double>(r, [&] { return flt<double>(r, d.finite); }); a.vs = vec<std::string>(r, [&] { return text(r, d, 8); });
    for (auto &x : a.arr) x = num<std::int32_t>(r);
    { std::array<std::uint32_t, 2> dim{ static_cast<std::uint32_t>(r.below(5)), static_cast<std::uint32_t>(r.below(5)) }; a.m2 = MultiArray<double, 2>(dim); for (auto &x : a.m2.elements()) x = flt<double>(r, d.finite); }
    { std::array<std::uint32_t, 3> dim{ static_cast<std::uint32_t>(r.below(4)), static_cast<std::uint32_t>(r.below(4)), static_cast<std::uint32_t>(r.below(4)) }; a.m3 = MultiArray<std::int32_t, 3>(dim); for (auto &x : a.m3.elements()) x = num<std::int32_t>(r); }
    a.set.clear(); for (auto n = r.below(6); n > 0; --n) a.set.insert(num<std::int32_t>(r));
    a.mi.clear(); for (auto n = r.below(6); n > 0; --n) a.mi[mapKey(r, d)] = num<std::int32_t>(r);
    a.ms.clear(); for (auto n = r.below(6); n > 0; --n) a.ms[mapKey(r, d)] = text(r, d);
    a.ann = flt<double>(r, d.finite);
    gen(r, a.inner, d); gen(r, a.deep, d); a.last = num<std::int32_t>(r);
    a.up.reset(); if (r.chance(60)) a.up = std::make_unique<std::int32_t>(num<std::int32_t>(r));
    a.sp.reset(); if (r.chance(60)) { a.sp = std::make_shared<t::Inner>(); gen(r, *a.sp, d); }
}
// a buffer whose memory ends exactly where the data ends
static IoBuffer exact(const std::string &bytes) { return IoBuffer(bytes.data(), bytes.size()); }
static std::string bytesOf(const IoBuffer &b) { return std::string(reinterpret_cast<const char *>(b.data()), b.size()); }
static std::string infoText(const DeserialiserInfo &i) { std::string o; for (const auto &e : i.exceptions) o += std::string(e.what()) + " | "; return o; }
template<typename F> static std::string outcome(F f) { // "" = returned
    try { f(); return ""; } catch (const ProtocolException &e) { return std::string("ProtocolException ") + e.what(); } catch (const std::exception &e) { return std::string("exception ") + e.what(); }
}
template<typename F> static bool isBinary() { return std::is_same_v<F, YaS> || std::is_same_v<F, CmwLight>; }

// ---- independent JSON reader (RFC 8259)
struct J {
    std::string_view s; std::size_t p = 0; std::string err; int depth = 0;
    bool fail(const char *e) { if (err.empty()) err = std::string(e) + " at " + std::to_string(p); return false; }
    void ws() { while (p < s.size() && (s[p] == ' ' || s[p] == '\n' || s[p] == '\r' || s[p] == '\t')) ++p; }
    bool lit(std::string_view l) { if (s.substr(p, l.size()) != l) return fail("literal"); p += l.size(); return true; }
    bool str() {
        if (p >= s.size() || s[p] != '"') return fail("string expected"); ++p;
        while (true) {
            if (p >= s.size()) return fail("unterminated string");
            unsigned char ch = static_cast<unsigned char>(s[p++]);
            if (ch == '"') return true;
            if (ch < 0x20) return fail("control character in string");
            if (ch == '\\') {
                if (p >= s.size()) return fail("escape at end");
                char e = s[p++];
                if (e == 'u') { for (int i = 0; i < 4; ++i, ++p) if (p >= s.size() || !std::isxdigit(static_cast<unsigned char>(s[p]))) return fail("bad unicode escape"); }
                else if (!std::strchr("\"\\/bfnrt", e)) return fail("bad escape");
            }
        }
    }
    bool numb() {
        std::size_t b = p; if (p < s.size() && s[p] == '-') ++p;
        auto digs = [&] { std::size_t q = p; while (p < s.size() && std::isdigit(static_cast<unsigned char>(s[p]))) ++p; return p > q; };
        std::size_t q = p; if (!digs()) return fail("number expected"); if (s[q] == '0' && p > q + 1) return fail("leading zero");
        if (p < s.size() && s[p] == '.') { ++p; if (!digs()) return fail("digits after point"); }
        if (p < s.size() && (s[p] == 'e' || s[p] == 'E')) { ++p; if (p < s.size() && (s[p] == '+' || s[p] == '-')) ++p; if (!digs()) return fail("exponent"); }
        return p > b;
    }
    bool value() {
        if (++depth > 100) return fail("depth");
        ws(); if (p >= s.size()) return fail("value expected"); bool ok;
        switch (s[p]) { case '{': ok = obj(); break; case '[': ok = arr(); break; case '"': ok = str(); break; case 't': ok = lit("true"); break; case 'f': ok = lit("false"); break; case 'n': ok = lit("null"); break; default: ok = numb(); }
        --depth; ws(); return ok;
    }
    bool obj() {
        ++p; ws(); if (p < s.size() && s[p] == '}') { ++p; return true; }
        while (true) { ws(); if (!str()) return false; ws(); if (p >= s.size() || s[p] != ':') return fail("colon expected"); ++p; if (!value()) return false; if (p < s.size() && s[p] == ',') { ++p; continue; } if (p < s.size() && s[p] == '}') { ++p; return true; } return fail("comma or } expected"); }
    }
    bool arr() {
        ++p; ws(); if (p < s.size() && s[p] == ']') { ++p; return true; }
        while (true) { if (!value()) return false; if (p < s.size() && s[p] == ',') { ++p; continue; } if (p < s.size() && s[p] == ']') { ++p; return true; } return fail("comma or ] expected"); }
    }
    bool document() { return value() && (p == s.size() || fail("trailing data")); }
};

template<typename F> static void roundTrip(vp::Ctx &c, const char *name, const Dom &dom, std::uint64_t rounds) {
    auto &r = c.rng; const std::string n = name;
    for (std::uint64_t i = 0; i < rounds; ++i) {
        t::All a; gen(r, a, dom);
        const auto want = fields(a);
        IoBuffer   b;
        if (r.chance(50)) b.put<IoBuffer::MetaInfo::WITHOUT>(std::string()); // sometimes an already used buffer
        c.crumb("roundtrip-" + n, "");
        serialise<F>(b, a);
        const auto wire = bytesOf(b);
        c.crumb("roundtrip-" + n, wire);
        c.distinct(wire);
        if constexpr (std::is_same_v<F, Json>) { J j{ wire }; VP_CHECK(j.document(), n + "-not-valid-json", j.err + " in " + wire); }
        // the same value gives the same bytes
        { IoBuffer again; serialise<F>(again, a); VP_CHECK(bytesOf(again) == wire, n + "-not-deterministic", wire); }
        for (int mode = 0; mode < 3; ++mode) {
            t::All o; if (r.chance(70)) { gen(r, o, dom); if (!a.up) o.up.reset(); if (!a.sp) o.sp.reset(); } // what was in there before does not shine through
            auto buf = exact(wire);
            DeserialiserInfo info;
            const auto res = outcome([&] {
                if (mode == 0) info = deserialise<F, ProtocolCheck::ALWAYS>(buf, o);
                else if (mode == 1) info = deserialise<F, ProtocolCheck::LENIENT>(buf, o);
                else info = deserialise<F, ProtocolCheck::IGNORE>(buf, o);
            });
            const auto what = n + " mode " + std::to_string(mode);
            VP_CHECK(res.empty(), n + "-own-data-refused", what + " " + res + " in " + wire);
            if (!res.empty()) continue;
            VP_CHECK(info.exceptions.empty(), n + "-own-data-complained-about", what + " " + infoText(info));
            VP_CHECK(info.additionalFields.empty(), n + "-own-fields-unknown", what);
            VP_CHECK((buf.position() == buf.size() || std::is_same_v<F, Json>), n + "-data-left-over", what + " position " + std::to_string(buf.position()) + " of " + std::to_string(buf.size()));
            const auto got = fields(o);
            for (std::size_t k = 0; k < want.size(); ++k) VP_CHECK(got[k].second == want[k].second, n + "-value-differs-" + want[k].first, what + " field " + want[k].first + " was " + want[k].second + " is " + got[k].second);
            if (mode != 2) {
                auto it = info.setFields.find("root");
                VP_CHECK(it != info.setFields.end(), n + "-no-set-fields", what);
                if (it != info.setFields.end()) for (std::size_t k = 0; k < want.size(); ++k) {
                    const bool sent = want[k].second != "null";
                    VP_CHECK(k < it->second.size() && it->second[k] == sent, n + "-set-fields-differ", what + " field " + want[k].first);
                }
            }
            // writing back what was read gives the same bytes again
            IoBuffer back; serialise<F>(back, o);
            VP_CHECK(bytesOf(back) == wire || std::string_view(wire).find("nan") != std::string_view::npos, n + "-bytes-differ", what);
            c.count(n + " values read back");
        }
        if (i < 2) c.sample(n + " " + wire);
    }
}

#if !defined(VP_PART) || VP_PART == 2
static void s02(vp::Ctx &c) {
    roundTrip<YaS>(c, "YaS", Dom{}, vp::scaled(500));
    roundTrip<CmwLight>(c, "CmwLight", Dom{}, vp::scaled(500));
    // several objects one after the other in one stream (YaS carries the sizes)
    auto &r = c.rng;
    for (std::uint64_t i = 0; i < vp::scaled(150); ++i) { // without meta information
        t::All a; gen(r, a, Dom{}); const auto want = fields(a);
        IoBuffer b; serialise<YaS, false>(b, a); auto buf = exact(bytesOf(b));
        t::All o; const auto res = outcome([&] { deserialise<YaS, ProtocolCheck::IGNORE>(buf, o); });
        VP_CHECK(res.empty(), "without-meta-refused", res);
        const auto got = fields(o); for (std::size_t k = 0; k < want.size() && res.empty(); ++k) VP_CHECK(got[k].second == want[k].second, "without-meta-differs-" + want[k].first, got[k].second);
        c.distinct(bytesOf(b));
    }
}
#endif
#if !defined(VP_PART) || VP_PART == 3
static void s03(vp::Ctx &c) {
    roundTrip<Json>(c, "JSON", Dom{ true, true }, vp::scaled(700));
    // texts written by others: white space, escapes, long numbers, unknown members
    auto &r = c.rng;
    for (std::uint64_t i = 0; i < vp::scaled(3000); ++i) {
        auto ws = [&] { return r.str(" \n\t\r", 0, 3); };
        std::string want, lit;
        for (auto n = r.below(12); n > 0; --n) { switch (r.below(8)) { case 0: lit += "\\n"; want += '\n'; break; case 1: lit += "\\\""; want += '"'; break; case 2: lit += "\\\\"; want += '\\'; break; case 3: lit += "\\/"; want += '/'; break; case 4: lit += "\\t"; want += '\t'; break; case 5: { auto v = static_cast<int>(r.below(0x80)); char b[8]; std::snprintf(b, sizeof b, r.chance(50) ? "\\u%04x" : "\\u%04X", v); lit += b; want += static_cast<char>(v); break; } default: { char ch = "abc{}[]:,'"[r.below(10)]; lit += ch; want += ch; } } }
        const auto i32 = num<std::int32_t>(r); const double d = flt<double>(r, true); std::vector<std::int32_t> vi = vec<std::int32_t>(r, [&] { return num<std::int32_t>(r); });
        char db[420]; switch (r.below(3)) { case 0: std::snprintf(db, sizeof db, "%.17g", d); break; case 1: std::snprintf(db, sizeof db, "%.40e", d); break; default: std::snprintf(db, sizeof db, "%.25e", d); }
        std::string va = "[" + ws(); for (std::size_t k = 0; k < vi.size(); ++k) va += (k ? "," + ws() : "") + std::to_string(vi[k]) + ws(); va += "]";
        auto unknown = [&] { static const std::vector<std::string> u{ "1", "-2.5e10", "\"x\"", "true", "false", "null", "[]", "{}", "[1,[2,{\"a\":[]}]]", "{\"s\":\"inner\",\"i32\":5}", "[{\"d\":1},2]", "\"}\"", "\"a\\\"b\"" }; return r.pick(u); };
        std::vector<std::string> mem{ "\"s\"" + ws() + ":" + ws() + "\"" + lit + "\"", "\"i32\"" + ws() + ":" + ws() + std::to_string(i32), "\"vi32\"" + ws() + ":" + ws() + va, "\"d\"" + ws() + ":" + ws() + db };
        int extra = 0; while (r.chance(40)) { mem.push_back("\"unknown" + std::to_string(extra++) + "\"" + ws() + ":" + ws() + unknown()); }
        for (std::size_t k = mem.size() - 1; k > 0; --k) std::swap(mem[k], mem[r.below(k + 1)]);
        std::string doc = ws() + "{" + ws(); for (std::size_t k = 0; k < mem.size(); ++k) doc += (k ? "," : "") + ws() + mem[k] + ws(); doc += "}" + ws();
        c.crumb("json-foreign", doc); c.distinct(doc);
        { J j{ doc }; if (!j.document()) { c.violation("harness-error", j.err + doc); continue; } }
        auto buf = exact(doc); t::Small o; DeserialiserInfo info;
        const auto res = outcome([&] { info = deserialise<Json, ProtocolCheck::LENIENT>(buf, o); });
        VP_CHECK(res.empty(), "valid-json-refused", res + " in " + doc); if (!res.empty()) continue;
        VP_CHECK(o.s == want, "json-string-differs", doc + " is " + o.s); VP_CHECK(o.i32 == i32, "json-integer-differs", doc + " is " + std::to_string(o.i32)); VP_CHECK(o.vi32 == vi, "json-array-differs", doc + show(o.vi32)); VP_CHECK(show(o.d) == show(std::strtod(db, nullptr)), "json-number-differs", doc + " is " + std::to_string(o.d));
        VP_CHECK(info.additionalFields.size() == static_cast<std::size_t>(extra), "json-unknown-members-differ", doc + " reported " + std::to_string(info.additionalFields.size()));
        c.count("foreign JSON texts");
    }
}
#endif
#if !defined(VP_PART) || VP_PART == 4
static std::string showY(const t::Y &y) { return show(y.b) + ";" + show(y.i32) + ";" + show(y.i64) + ";" + show(y.d) + ";" + show(y.f) + ";" + show(y.s) + ";" + show(y.vi) + ";" + show(y.vd) + ";" + show(y.arr) + ";" + show(y.set) + ";" + show(y.mi) + ";" + show(y.inner.x) + show(y.inner.d) + show(y.inner.s) + ";" + show(y.last); }
static void genY(vp::Rng &r, t::Y &y) {
    auto word = [&] { return r.str("abcXYZ019.-_/", 1, 20); };
    y.b = r.chance(50); y.i32 = num<std::int32_t>(r); y.i64 = num<std::int64_t>(r); y.d = flt<double>(r, true); y.f = flt<float>(r, true); y.s = word();
    y.vi = vec<std::int32_t>(r, [&] { return num<std::int32_t>(r); }); if (y.vi.empty()) y.vi.push_back(1); y.vd = vec<double>(r, [&] { return flt<double>(r, true); }); if (y.vd.empty()) y.vd.push_back(1);
    for (auto &x : y.arr) x = num<std::int32_t>(r);
    y.set.clear(); for (auto n = 1 + r.below(3); n > 0; --n) y.set.insert(static_cast<std::int32_t>(r.range(-99, 99)));
    y.mi.clear(); for (auto n = 1 + r.below(3); n > 0; --n) y.mi[r.str("abcXYZ", 1, 6)] = static_cast<std::int32_t>(r.range(-99, 99));
    y.inner.x = num<std::int32_t>(r); y.inner.d = flt<double>(r, true); y.inner.s = word(); y.last = num<std::int32_t>(r);
}
static void s04(vp::Ctx &c) {
    auto &r = c.rng;
    for (std::uint64_t i = 0; i < vp::scaled(2500); ++i) {
        t::Y y; genY(r, y); IoBuffer b; c.crumb("yaml", ""); serialise<YAML>(b, y); const auto wire = bytesOf(b); c.crumb("yaml", wire); c.distinct(wire);
        t::Y o; if (r.chance(60)) genY(r, o); auto buf = exact(wire); DeserialiserInfo info;
        const auto res = outcome([&] { info = r.chance(50) ? deserialise<YAML, ProtocolCheck::ALWAYS>(buf, o) : deserialise<YAML, ProtocolCheck::LENIENT>(buf, o); });
        VP_CHECK(res.empty(), "yaml-own-data-refused", res + " in " + wire); if (!res.empty()) continue;
        VP_CHECK(info.exceptions.empty(), "yaml-own-data-complained-about", infoText(info));
        VP_CHECK(showY(o) == showY(y), "yaml-value-differs", showY(y) + " is " + showY(o) + " in " + wire);
        c.count("YAML values read back");
    }
}
#endif
#if !defined(VP_PART) || VP_PART == 5
template<typename F, typename T> static void feed(vp::Ctx &c, const std::string &n, const std::string &wire) {
    std::string first;
    for (int mode = 0; mode < 3; ++mode) {
        auto buf = exact(wire); T o{}; DeserialiserInfo info;
        const auto t0  = std::chrono::steady_clock::now();
        const auto res = outcome([&] {
            if (mode == 0) info = deserialise<F, ProtocolCheck::ALWAYS>(buf, o);
            else if (mode == 1) info = deserialise<F, ProtocolCheck::LENIENT>(buf, o);
            else info = deserialise<F, ProtocolCheck::IGNORE>(buf, o);
        });
        const auto ms = std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count();
        VP_CHECK(ms < 20000, n + "-takes-too-long", std::to_string(ms) + " ms for " + std::to_string(wire.size()) + " bytes");
        c.count(res.empty() ? n + " accepted" : n + " refused");
        if constexpr (std::is_same_v<T, t::All>) { // whatever was stored has to be usable
            std::size_t e2 = 1, e3 = 1; for (auto x : o.m2.dimensions()) e2 *= x; for (auto x : o.m3.dimensions()) e3 *= x;
            VP_CHECK(o.m2.elements().size() == e2 && o.m2.element_count() == e2 && o.m3.elements().size() == e3 && o.m3.element_count() == e3, n + "-inconsistent-multi-array", show(o.m2) + show(o.m3));
            (void) fields(o);
        }
        // the outcome depends on the data only
        t::All dummy; (void) dummy; auto buf2 = exact(wire); T o2{};
        const auto res2 = outcome([&] { if (mode == 0) deserialise<F, ProtocolCheck::ALWAYS>(buf2, o2); else if (mode == 1) deserialise<F, ProtocolCheck::LENIENT>(buf2, o2); else deserialise<F, ProtocolCheck::IGNORE>(buf2, o2); });
        VP_CHECK(res == res2, n + "-outcome-differs", res + " / " + res2);
        if constexpr (std::is_same_v<T, t::All>) VP_CHECK(fields(o) == fields(o2), n + "-result-differs", "same data twice");
    }
}
static std::string mutate(vp::Rng &r, std::string w, bool textual) {
    static const std::vector<std::int32_t> ints{ -1, 0, 1, 2, 0x7fffffff, static_cast<std::int32_t>(0x80000000u), -2, 0x10000, 255, 0x40000000, 0x20000000, 17 };
    static const std::vector<std::string>  toks{ "{", "}", "[", "]", ",", ":", "\"", "\\", "\\u12", "\\u0", "null", "true", "fals", "-", "1e999", "99999999999999999999", "nan", " ", "\n", "\n\n", "  ", "#", "...", "---", ": ", "- ", "\t", "\\u00e4", "\"s\": {", "\"inner\": 5", "\"mi\": [", std::string(1, '\0'), "'" };
    for (auto k = 1 + r.below(r.chance(50) ? 1 : 4); k > 0; --k) {
        if (w.empty()) return w;
        switch (r.below(textual ? 9 : 7)) {
        case 0: w.resize(r.below(w.size() + 1)); break;
        case 1: w[r.below(w.size())] = static_cast<char>(w[0] ^ (1 << r.below(8))); break;
        case 2: { auto p = r.below(w.size()); w[p] = static_cast<char>(w[p] ^ (1 << r.below(8))); break; }
        case 3: if (w.size() >= 4) { auto v = r.chance(80) ? r.pick(ints) : static_cast<std::int32_t>(w.size() - r.below(40)); std::memcpy(w.data() + r.below(w.size() - 3), &v, 4); } break;
        case 4: { auto p = r.below(w.size()), n = r.below(w.size() - p + 1); w.erase(p, std::min<std::uint64_t>(n, r.chance(70) ? 8 : n)); break; }
        case 5: { auto p = r.below(w.size()), n = std::min<std::uint64_t>(r.below(w.size() - p + 1), 64); w.insert(r.below(w.size()), w.substr(p, n)); break; }
        case 6: w.insert(r.below(w.size() + 1), r.bytes(1, 6)); break;
        default: w.insert(r.below(w.size() + 1), r.pick(toks)); break;
        }
    }
    return w;
}
static void s05(vp::Ctx &c) {
    auto &r = c.rng; const Dom safe{ true, true };
    auto shrink = [](t::All &a) { if (a.s.size() > 40) a.s.resize(40); for (auto *v : { &a.vi32 }) if (v->size() > 12) v->resize(12); if (a.vd.size() > 12) a.vd.resize(12); if (a.vs.size() > 12) a.vs.resize(12); if (a.vi64.size() > 12) a.vi64.resize(12); if (a.vi8.size() > 12) a.vi8.resize(12); if (a.vb.size() > 12) a.vb.resize(12); };
    std::uint64_t rounds = vp::scaled(1200);
    for (std::uint64_t i = 0; i < rounds; ++i) {
        t::All a; gen(r, a, safe); shrink(a); t::Small sm; sm.s = a.s; sm.i32 = a.i32; sm.vi32 = a.vi32; sm.d = a.d; sm.a2 = { 1, 2 };
        const bool small = r.chance(40);
        auto go = [&]<typename F>(const std::string &n, bool textual) {
            IoBuffer b; if (small) serialise<F>(b, sm); else serialise<F>(b, a);
            std::string w = mutate(r, bytesOf(b), textual);
            if (r.chance(2)) w = r.bytes(0, 60);
            c.crumb("hostile-" + n, w); c.distinct(w);
            if (small) { feed<F, t::Small>(c, n, w); if (r.chance(10)) feed<F, t::All>(c, n, w); } else feed<F, t::All>(c, n, w);
        };
        go.template operator()<YaS>("YaS", false); go.template operator()<CmwLight>("CmwLight", false); go.template operator()<Json>("JSON", true);
        if (r.chance(30)) { IoBuffer b; t::Y y; y.i32 = a.i32; y.vi = a.vi32.empty() ? std::vector<std::int32_t>{ 1 } : a.vi32; y.vd = { 1.5 }; y.set = { 1, 2 }; y.mi = { { "k", 3 } }; serialise<YAML>(b, y); auto w = mutate(r, bytesOf(b), true); c.crumb("hostile-YAML", w); c.distinct(w); feed<YAML, t::Y>(c, "YAML", w); }
        if (i < 4) c.sample("mutated documents of four formats");
    }
    if (c.shard == 0) { // every truncation, every byte replaced by the extremes, of one small document per format
        t::Small sm; sm.s = "text \"q\""; sm.i32 = -5; sm.vi32 = { 1, 2, 3 }; sm.d = 1.25; sm.a2 = { 3, 4 };
        auto sweep = [&]<typename F>(const std::string &n) {
            IoBuffer b; serialise<F>(b, sm); const auto w = bytesOf(b);
            for (std::size_t k = 0; k <= w.size(); ++k) { c.crumb("hostile-" + n, w.substr(0, k)); feed<F, t::Small>(c, n, w.substr(0, k)); }
            for (std::size_t k = 0; k < w.size(); ++k) for (int v : { 0, 1, 0x7f, 0x80, 0xff, static_cast<int>('"'), static_cast<int>('}'), static_cast<int>(']'), static_cast<int>('\n'), static_cast<int>(' ') }) { auto x = w; x[k] = static_cast<char>(v); c.crumb("hostile-" + n, x); feed<F, t::Small>(c, n, x); }
        };
        sweep.template operator()<YaS>("YaS"); sweep.template operator()<CmwLight>("CmwLight"); sweep.template operator()<Json>("JSON"); sweep.template operator()<YAML>("YAML");
        // nesting without end
        for (std::size_t depth : { 100u, 5000u, 100000u, 1000000u }) for (const char *open : { "[", "{\"a\":" }) {
            std::string w = "{\"unknown\": "; for (std::size_t k = 0; k < depth; ++k) w += open;
            c.crumb("hostile-JSON", open); feed<Json, t::Small>(c, "JSON", w); c.distinct(w.size());
        }
        for (std::size_t depth : { 100u, 240u, 300u, 5000u, 200000u }) { // CmwLight structures in structures
            IoBuffer b; b.put(std::int32_t{ 1 }); for (std::size_t k = 0; k < depth; ++k) { b.put(std::string("n")); b.put(std::uint8_t{ 8 }); b.put(std::int32_t{ 1 }); } b.put(std::string("v")); b.put(std::uint8_t{ 3 }); b.put(std::int32_t{ 5 });
            c.crumb("hostile-CmwLight", "nested"); feed<CmwLight, t::Small>(c, "CmwLight", bytesOf(b));
        }
    }
}
#endif
#if !defined(VP_PART) || VP_PART == 6
template<typename F> static void evolve(vp::Ctx &c, const std::string &n, const Dom &dom, std::uint64_t rounds) {
    auto &r = c.rng;
    for (std::uint64_t i = 0; i < rounds; ++i) {
        t::All a; gen(r, a, dom);
        IoBuffer b; serialise<F>(b, a); const auto wire = bytesOf(b); c.crumb("evolve-" + n, wire); c.distinct(wire);
        auto run = [&]<ProtocolCheck check>(auto &o, DeserialiserInfo &info) { auto buf = exact(wire); return outcome([&] { info = deserialise<F, check>(buf, o); }); };
        auto mask = [&](const DeserialiserInfo &info, const std::vector<bool> &want, const std::string &what) { auto it = info.setFields.find("root"); VP_CHECK(it != info.setFields.end() && it->second == want, n + "-set-fields-differ", what); };
        auto extra = [&](const DeserialiserInfo &info) { std::set<std::string> s; for (const auto &e : info.additionalFields) s.insert(std::get<0>(e)); return s; };
        std::set<std::string> all; for (const auto &[k, v] : fields(a)) if (v != "null") all.insert("root::" + k);
        auto without = [&](std::initializer_list<const char *> l) { auto s = all; for (auto x : l) s.erase(std::string("root::") + x); return s; };
        for (int mode = 0; mode < 2; ++mode) {
            {
                t::Subset o; DeserialiserInfo info; const auto res = mode ? run.template operator()<ProtocolCheck::IGNORE>(o, info) : run.template operator()<ProtocolCheck::LENIENT>(o, info);
                VP_CHECK(res.empty(), n + "-newer-data-refused", res);
                if (res.empty()) { VP_CHECK(o.i16 == a.i16 && o.s == a.s && show(o.vd) == show(a.vd) && show(o.inner) == show(a.inner), n + "-newer-data-differs", "i16 " + show(o.i16) + " s " + o.s + " inner " + show(o.inner)); if (!mode) { mask(info, { true, true, true, true, true }, "subset"); VP_CHECK(extra(info) == without({ "i16", "s", "vd", "inner", "set" }), n + "-unknown-fields-differ", "subset " + std::to_string(info.additionalFields.size())); } }
            }
            {
                t::Reordered o; DeserialiserInfo info; const auto res = mode ? run.template operator()<ProtocolCheck::IGNORE>(o, info) : run.template operator()<ProtocolCheck::LENIENT>(o, info);
                VP_CHECK(res.empty(), n + "-reordered-data-refused", res);
                if (res.empty()) { VP_CHECK(o.last == a.last && show(o.deep) == show(a.deep) && show(o.vs) == show(a.vs) && show(o.inner) == show(a.inner) && show(o.d) == show(a.d) && o.s == a.s && o.i8 == a.i8, n + "-reordered-data-differs", "last " + show(o.last) + " deep " + show(o.deep)); if (!mode) mask(info, { true, true, true, true, true, true, true, true }, "reordered"); }
            }
            {
                t::Extended o; o.newFirst = static_cast<std::int32_t>(i); o.newInner.s = "mine"; DeserialiserInfo info; const auto res = mode ? run.template operator()<ProtocolCheck::IGNORE>(o, info) : run.template operator()<ProtocolCheck::LENIENT>(o, info);
                VP_CHECK(res.empty(), n + "-older-data-refused", res);
                if (res.empty()) { VP_CHECK(o.newFirst == static_cast<std::int32_t>(i) && o.newMiddle == (std::vector<std::int32_t>{ 1, 2, 3 }) && o.newInner.s == "mine" && o.newLast == "keep", n + "-missing-field-changed", "field without data was changed"); VP_CHECK(o.s == a.s && o.i64 == a.i64 && show(o.d) == show(a.d), n + "-older-data-differs", o.s); if (!mode) mask(info, { false, true, false, true, false, true, false, true }, "extended"); }
            }
            if (!std::is_same_v<F, Json>) { // JSON does not carry the types
                t::Wrong o; DeserialiserInfo info; const auto res = mode ? run.template operator()<ProtocolCheck::IGNORE>(o, info) : run.template operator()<ProtocolCheck::LENIENT>(o, info);
                VP_CHECK(res.empty(), n + "-other-types-refused", res);
                if (res.empty()) {
                    VP_CHECK(o.i32 == "untouched" && o.s == -5 && o.vd == (std::vector<std::string>{ "untouched" }) && o.vs == -1.5 && o.i64 == -9, n + "-other-type-written", o.i32 + show(o.s) + show(o.vd) + show(o.vs) + show(o.i64));
                    VP_CHECK(o.last == a.last, n + "-field-after-other-types-lost", show(o.last));
                    if (!mode) { mask(info, { false, false, false, false, false, true, true }, "wrong types"); int m = 0; for (const auto &e : info.exceptions) m += std::string_view(e.what()).find("mismatched field type") != std::string_view::npos; VP_CHECK(m == 5, n + "-other-types-not-reported", std::to_string(m)); }
                }
                DeserialiserInfo i2; t::Wrong o2; VP_CHECK(!run.template operator()<ProtocolCheck::ALWAYS>(o2, i2).empty(), n + "-other-types-accepted", "strict check");
            }
            if (std::is_same_v<F, YaS> && !mode) {
                t::WrongUnit o; DeserialiserInfo info; const auto res = run.template operator()<ProtocolCheck::LENIENT>(o, info);
                VP_CHECK(res.empty() && o.ann.value() == -3.5 && o.i32 == a.i32 && o.last == a.last, n + "-other-unit-written", res + show(static_cast<double>(o.ann.value())));
                if (res.empty()) mask(info, { true, false, true }, "unit");
                t::WrongUnit o2; DeserialiserInfo i2; VP_CHECK(!run.template operator()<ProtocolCheck::ALWAYS>(o2, i2).empty(), n + "-other-unit-accepted", "strict check");
            }
            { t::Subset o; DeserialiserInfo info; VP_CHECK(!run.template operator()<ProtocolCheck::ALWAYS>(o, info).empty(), n + "-unknown-fields-accepted", "strict check"); }
            c.count(n + " layouts read", 5);
        }
        // a partial update: only some fields are sent, the rest of the receiving object stays
        { t::Subset part; part.i16 = num<std::int16_t>(r); part.s = text(r, dom); part.set = { static_cast<std::int32_t>(i), 5 }; part.vd = vec<double>(r, [&] { return flt<double>(r, dom.finite); }); gen(r, part.inner, dom);
          IoBuffer pb; serialise<F>(pb, part); auto buf = exact(bytesOf(pb)); auto before = fields(a); const auto res = outcome([&] { deserialise<F, ProtocolCheck::LENIENT>(buf, a); });
          VP_CHECK(res.empty(), n + "-partial-update-refused", res); auto after = fields(a);
          for (std::size_t k = 0; k < after.size() && res.empty(); ++k) { const auto &f = after[k].first; std::string w = f == "i16" ? show(part.i16) : f == "s" ? show(part.s) : f == "vd" ? show(part.vd) : f == "inner" ? show(part.inner) : f == "set" ? show(part.set) : before[k].second; VP_CHECK(after[k].second == w, n + "-partial-update-" + f, "was " + before[k].second + " is " + after[k].second + " want " + w); } }
    }
}
static void s06(vp::Ctx &c) {
    evolve<YaS>(c, "YaS", Dom{}, vp::scaled(250));
    evolve<CmwLight>(c, "CmwLight", Dom{}, vp::scaled(250));
    evolve<Json>(c, "JSON", Dom{ true, true }, vp::scaled(250));
    // an unknown set in CmwLight data
    t::All a; a.set = { 1, 2, 3 }; a.last = 77; IoBuffer b; serialise<CmwLight>(b, a); t::WrongUnit o; auto buf = exact(bytesOf(b));
    const auto res = outcome([&] { deserialise<CmwLight, ProtocolCheck::IGNORE>(buf, o); });
    VP_CHECK(res.empty() && o.last == 77, "CmwLight-unknown-set", "a set that the receiver does not know is not skipped: " + res);
}
#endif
#if !defined(VP_PART) || VP_PART == 7
static void s07(vp::Ctx &c) {
    auto &r = c.rng;
    for (std::uint64_t i = 0; i < vp::scaled(20000); ++i) {
        t::Query q; q.i32 = num<std::int32_t>(r); q.i64 = num<std::int64_t>(r); q.i16 = num<std::int16_t>(r); q.d = static_cast<double>(r.range(-1000000, 1000000)) / 64; q.f = static_cast<float>(r.range(-1000, 1000)) / 8; q.s = r.bytes(0, 12); q.flag = r.chance(50);
        q.contentType = r.pick(std::vector<MIME::MimeType>{ MIME::JSON, MIME::BINARY, MIME::HTML, MIME::UNKNOWN, MIME::CMWLIGHT, MIME::YAML });
        q.ctx = r.chance(30) ? TimingCtx() : TimingCtx(static_cast<std::int32_t>(r.below(50)), r.chance(70) ? static_cast<std::int32_t>(r.below(9)) : -1, r.chance(70) ? static_cast<std::int32_t>(r.below(9)) : -1, r.chance(70) ? static_cast<std::int32_t>(r.below(9)) : -1);
        auto m = query::serialise(q); c.crumb("query", q.s);
        auto o = query::deserialise<t::Query>(m);
        VP_CHECK(o.i32 == q.i32 && o.i64 == q.i64 && o.i16 == q.i16, "query-integer-differs", show(q.i64) + " is " + show(o.i64));
        VP_CHECK(o.d == q.d && o.f == q.f, "query-number-differs", std::to_string(q.d) + " is " + std::to_string(o.d));
        VP_CHECK(o.s == q.s, "query-string-differs", q.s); VP_CHECK(o.flag == q.flag, "query-flag-differs", show(q.flag)); VP_CHECK(o.ctx == q.ctx, "query-context-differs", q.ctx.toString() + " is " + o.ctx.toString()); VP_CHECK(o.contentType == q.contentType, "query-mime-differs", std::string(q.contentType.typeName()));
        VP_CHECK(query::getMimeType(q) == q.contentType, "query-mime-not-found", std::string(q.contentType.typeName()));
        VP_CHECK(m.contains("flag") == q.flag && m.size() == (q.flag ? 9u : 8u), "query-entries-differ", std::to_string(m.size()));
        // damaged or missing parameters leave their field at the default and do not touch the others
        static const std::vector<std::string> names{ "i32", "i64", "i16", "d", "f", "s", "flag", "ctx", "contentType" };
        auto bad = m; const auto victim = r.pick(names); const int how = static_cast<int>(r.below(3));
        if (how == 0) bad.erase(victim); else if (how == 1) bad[victim] = r.pick(std::vector<std::string>{ "", "x1", "--1", "abc", " ", "\xff", "99999999999999999999999999" }); else { bad.erase(victim); bad["unknown" + victim] = "1"; }
        t::Query p = q; const auto res = outcome([&] { p = query::deserialise<t::Query>(bad); });
        VP_CHECK(res.empty(), "query-damaged-parameter-throws", victim + " " + res);
        t::Query dflt;
        auto keep = [&](const std::string &nme, bool same, bool isDefault) { if (nme != victim) VP_CHECK(same, "query-other-field-changed", nme + " by a damaged " + victim); else if (nme != "s" && nme != "flag" && nme != "contentType" && nme != "ctx" && !(nme == "d" || nme == "f")) VP_CHECK(isDefault, "query-damaged-field-set", nme); };
        keep("i32", p.i32 == q.i32, p.i32 == dflt.i32); keep("i64", p.i64 == q.i64, p.i64 == dflt.i64); keep("i16", p.i16 == q.i16, p.i16 == dflt.i16); keep("d", p.d == q.d, true); keep("f", p.f == q.f, true); keep("s", p.s == q.s, true); keep("flag", p.flag == q.flag, true); keep("ctx", p.ctx == q.ctx, true); keep("contentType", p.contentType == q.contentType, true);
        c.distinct(vp::mix(vp::fnv(q.s), static_cast<std::uint64_t>(q.i64))); c.count("parameter sets");
    }
    c.sample("query parameter sets of nine fields");
}
#endif
void vp_main(vp::Ctx &c) {
#define M(n, f) if (c.mode == n) return f(c)
#if !defined(VP_PART) || VP_PART == 2
    M("s02", s02);
#endif
#if !defined(VP_PART) || VP_PART == 3
    M("s03", s03);
#endif
#if !defined(VP_PART) || VP_PART == 4
    M("s04", s04);
#endif
#if !defined(VP_PART) || VP_PART == 5
    M("s05", s05);
#endif
#if !defined(VP_PART) || VP_PART == 6
    M("s06", s06);
#endif
#if !defined(VP_PART) || VP_PART == 7
    M("s07", s07);
#endif
    c.violation("harness-error", "unknown mode " + c.mode);
}
