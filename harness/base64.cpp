// B01: base64 encoding/decoding against an independent reference
#include <majordomo/base64pp.hpp>
#include "vp.hpp"
using vp::ctx;

static const std::string AL = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string refEncode(const std::vector<std::uint8_t> &in) { // bit-stream based
    std::string   o;
    std::uint32_t acc = 0;
    int           bits = 0;
    for (auto b : in) {
        acc = (acc << 8) | b;
        bits += 8;
        while (bits >= 6) { bits -= 6; o += AL[(acc >> bits) & 63]; }
        acc &= (1u << bits) - 1;
    }
    if (bits) o += AL[(acc << (6 - bits)) & 63];
    while (o.size() % 4) o += '=';
    return o;
}
// RFC 4648 grammar; canonical=false when non-zero padding bits were dropped
static std::optional<std::vector<std::uint8_t>> refDecode(std::string_view t, bool &canonical) {
    canonical = true;
    if (t.size() % 4) return std::nullopt;
    std::size_t n = t.size();
    if (n && t[n - 1] == '=') --n;
    if (n && n != t.size() && t[n - 1] == '=') --n;
    std::vector<std::uint8_t> o;
    std::uint32_t             acc = 0;
    int                       bits = 0;
    for (std::size_t i = 0; i < n; ++i) {
        auto p = AL.find(t[i]);
        if (p == std::string::npos) return std::nullopt;
        acc = (acc << 6) | static_cast<std::uint32_t>(p);
        bits += 6;
        if (bits >= 8) { bits -= 8; o.push_back(static_cast<std::uint8_t>(acc >> bits)); acc &= (1u << bits) - 1; }
    }
    if (acc) canonical = false;
    return o;
}

static void enc(const std::vector<std::uint8_t> &in) {
    ctx().crumb("encode", std::string(in.begin(), in.end()));
    std::vector<std::uint8_t> exact(in); exact.shrink_to_fit();
    const auto e = base64pp::encode(exact);
    VP_CHECK(e == refEncode(in), "encode", "input '" + vp::esc(std::string(in.begin(), in.end())) + "' got '" + e + "' want '" + refEncode(in) + "'");
    const auto d = base64pp::decode(e);
    VP_CHECK(d && *d == in, "roundtrip", "input of " + std::to_string(in.size()) + " bytes, text '" + e + "'");
    if (in.size() > 1) ctx().distinct(vp::fnv(std::string_view(reinterpret_cast<const char *>(in.data()), in.size())));
}
static void dec(const std::string &t) {
    ctx().crumb("decode", t);
    std::vector<char> exact(t.begin(), t.end());
    bool       canonical = true;
    const auto want = refDecode(t, canonical);
    const auto got  = base64pp::decode(std::string_view(exact.data(), exact.size()));
    if (!want) { VP_CHECK(!got, "malformed-accepted", "'" + t + "'"); ctx().count("rejected"); }
    else if (!canonical) { VP_CHECK(!got || *got == *want, "decode", "'" + t + "'"); ctx().count("non_canonical"); }
    else { VP_CHECK(got && *got == *want, "decode", "'" + t + "'"); ctx().count("accepted"); }
    if (t.size() > 3) ctx().distinct(vp::mix(vp::fnv(t), 1));
}
void vp_main(vp::Ctx &c) {
    auto &r = c.rng;
    if (c.shard == 0) {
        enc({});
        for (int a = 0; a < 256; ++a) { enc({ static_cast<std::uint8_t>(a) }); for (int b = 0; b < 256; ++b) { enc({ static_cast<std::uint8_t>(a), static_cast<std::uint8_t>(b) }); if ((a * 7 + b) % 5 == 0) for (int k = 0; k < 256; k += 17) enc({ static_cast<std::uint8_t>(a), static_cast<std::uint8_t>(b), static_cast<std::uint8_t>(k) }); } }
        // every byte at every position of 4-, 8- and 12-character texts, with every padding form
        for (auto *base : { "QUJD", "QUI=", "QQ==", "QUJDREVG", "QUJDREU=", "QUJDRA==", "QUJDREVGR0hJ", "QUJDREVGR0g=", "QUJDREVGRw==" }) {
            std::string t(base);
            for (std::size_t p = 0; p < t.size(); ++p) for (int v = 0; v < 256; ++v) { std::string u = t; u[p] = static_cast<char>(v); dec(u); }
            for (std::size_t p = 0; p < t.size(); ++p) for (std::size_t q = 0; q < t.size(); ++q) for (char a : std::string("=A \n-_{~")) for (char b : std::string("=z/+|@")) { std::string u = t; u[p] = a; u[q] = b; dec(u); }
        }
        for (auto *t : { "=", "==", "===", "====", "A", "A=", "A==", "A===", "AA", "AAA", "AA=", "AAAAA", "AAAA=", "AAAA====", "AA==AAAA", "AAA=AAAA" }) dec(t);
    }
    for (std::uint64_t i = 0; i < vp::scaled(20000); ++i) {
        const auto s = r.bytes(0, r.chance(90) ? 40 : 600);
        enc({ s.begin(), s.end() });
        std::string t;
        switch (r.below(4)) {
        case 0: t = r.bytes(0, 16); break;
        case 1: t = r.str(AL + "=", 0, 16); break;
        case 2: t = r.str(AL, 0, 24); break;
        default: t = refEncode({ s.begin(), s.end() }); for (auto k = r.below(3); k > 0 && !t.empty(); --k) t[r.below(t.size())] = r.chance(50) ? static_cast<char>(r.next()) : AL[r.below(64)];
        }
        dec(t);
        if (i % 4999 == 0) ctx().sample("decode '" + t + "'");
    }
}
