// S01 IoBuffer histories against a byte vector model; S08 MultiArray index algebra
#include "vp.hpp"
#include <IoBuffer.hpp>
#include <MultiArray.hpp>
#include <set>

using namespace opencmw;

// memory resource that knows what it handed out
struct Ledger : std::pmr::memory_resource {
    vp::Ctx *c; std::map<void *, std::size_t> live;
    explicit Ledger(vp::Ctx *ctx) : c(ctx) {}
    void *do_allocate(std::size_t n, std::size_t) override { void *p = ::operator new(n); live[p] = n; return p; }
    void do_deallocate(void *p, std::size_t n, std::size_t) override {
        auto it = live.find(p);
        if (it == live.end()) { c->violation("memory-of-another-allocator", "freed what was never allocated here"); return; }
        if (it->second != n) c->violation("memory-size-differs", std::to_string(it->second) + " freed as " + std::to_string(n));
        live.erase(it); ::operator delete(p);
    }
    bool do_is_equal(const std::pmr::memory_resource &o) const noexcept override { return this == &o; }
};

struct Item { int kind; std::size_t at; std::string bytes; };
struct Slot {
    std::unique_ptr<IoBuffer> b;
    std::string bytes;          // model of [0, size)
    std::size_t pos = 0;
    bool        fixed = false;  // wraps foreign memory: may not grow
    std::size_t room = 0;
    std::vector<Item> items;    // values put since the last clear, readable back
};

template<typename T> static std::string raw(const T &v) { std::string s(sizeof(T), '\0'); std::memcpy(s.data(), &v, sizeof(T)); return s; }
static std::string rawStr(const std::string &v) { return raw(static_cast<std::int32_t>(v.size() + 1)) + v + std::string(1, '\0'); }

template<typename T> static T rnd(vp::Rng &r) { T v; std::uint64_t x = r.next(); if (r.chance(20)) x = 0; if (r.chance(10)) x = ~0ull; std::memcpy(&v, &x, sizeof(T)); return v; }
template<> bool rnd<bool>(vp::Rng &r) { return r.chance(50); }
static std::string rndStr(vp::Rng &r, std::size_t max = 40) { std::string s; auto n = r.below(max); for (std::uint64_t i = 0; i < n; ++i) s += static_cast<char>(r.below(256)); return s; }

template<typename T> static bool same(const T &a, const T &b) { return std::memcmp(&a, &b, sizeof(T)) == 0; }

static void s01(vp::Ctx &c) {
    auto &r = c.rng;
    for (std::uint64_t round = 0; round < vp::scaled(6000); ++round) {
        Ledger ledger(&c), ledger2(&c);
        std::vector<std::unique_ptr<std::uint8_t[]>> foreign;
        std::string h;
        {
            std::vector<Slot> s(4);
            auto check = [&](std::size_t i) {
                auto &x = s[i]; if (!x.b) return;
                c.eval();
                VP_CHECK(x.b->size() == x.bytes.size(), "size-differs", h + " slot " + std::to_string(i) + " " + std::to_string(x.b->size()) + " instead of " + std::to_string(x.bytes.size()));
                VP_CHECK(x.b->position() == x.pos, "position-differs", h);
                VP_CHECK(x.b->capacity() >= x.b->size(), "capacity-below-size", h);
                VP_CHECK(x.b->empty() == x.bytes.empty(), "empty-differs", h);
                VP_CHECK(x.bytes.empty() || std::memcmp(x.b->data(), x.bytes.data(), x.bytes.size()) == 0, "content-differs", h + " slot " + std::to_string(i));
                if (x.b->capacity() > 0 && x.b->data()) { volatile auto last = x.b->data()[x.b->capacity() - 1]; (void) last; } // really there
                VP_CHECK(x.b->asString() == x.bytes, "text-differs", h);
            };
            auto fill = [&](Slot &x, const std::string &b) { x.bytes = b; x.pos = 0; x.items.clear(); };
            const int steps = 10 + static_cast<int>(r.below(30));
            for (int step = 0; step < steps; ++step) {
                auto  i = r.below(s.size());
                auto &x = s[i];
                c.crumb("history", h);
                if (!x.b) {
                    switch (r.below(7)) {
                    case 0: h += "N"; x = Slot{}; x.b = std::make_unique<IoBuffer>(); break;
                    case 1: { auto n = r.below(300); h += "n" + std::to_string(n); x = Slot{}; x.b = std::make_unique<IoBuffer>(n); } break;
                    case 2: { auto n = r.below(300); h += "L" + std::to_string(n); x = Slot{}; x.b = std::make_unique<IoBuffer>(n, std::pmr::polymorphic_allocator<std::uint8_t>(r.chance(50) ? &ledger : &ledger2)); } break;
                    case 3: { auto t = rndStr(r); h += "D"; x = Slot{}; x.b = std::make_unique<IoBuffer>(t.data(), t.size()); fill(x, t); } break;
                    case 4: { auto t = rndStr(r); std::erase(t, '\0'); h += "d"; x = Slot{}; x.b = std::make_unique<IoBuffer>(t.c_str()); fill(x, t); } break;
                    case 5: { auto t = rndStr(r); h += "W"; foreign.emplace_back(new std::uint8_t[t.size() + 1]); std::memcpy(foreign.back().get(), t.data(), t.size()); x = Slot{}; x.b = std::make_unique<IoBuffer>(foreign.back().get(), t.size()); fill(x, t); x.fixed = true; } break;
                    default: { auto t = rndStr(r) + "x"; h += "O"; auto *p = static_cast<std::uint8_t *>(malloc(t.size())); std::memcpy(p, t.data(), t.size()); x = Slot{}; x.b = std::make_unique<IoBuffer>(p, t.size(), true); fill(x, t); x.fixed = true; } break;
                    }
                    check(i);
                    continue;
                }
                auto put = [&](int kind, const std::string &bytes, auto &&f) { x.items.push_back({ kind, x.bytes.size(), bytes }); f(); x.bytes += bytes; };
                switch (auto op = x.fixed ? 12 + r.below(12) : r.below(24); op) {
                case 0: { auto v = rnd<std::int8_t>(r); h += "b"; put(0, raw(v), [&] { x.b->put(v); }); } break;
                case 1: { auto v = rnd<std::int16_t>(r); h += "s"; put(1, raw(v), [&] { x.b->put(v); }); } break;
                case 2: { auto v = rnd<std::int32_t>(r); h += "i"; put(2, raw(v), [&] { x.b->put(v); }); } break;
                case 3: { auto v = rnd<std::int64_t>(r); h += "l"; put(3, raw(v), [&] { x.b->put(v); }); } break;
                case 4: { auto v = rnd<double>(r); h += "f"; put(4, raw(v), [&] { x.b->put(v); }); } break;
                case 5: { auto v = rndStr(r, r.chance(10) ? 500 : 40); h += "S"; put(5, rawStr(v), [&] { if (r.chance(50)) x.b->put(v); else x.b->put(std::string_view(v)); }); } break;
                case 6: { auto v = rndStr(r, r.chance(10) ? 500 : 40); h += "R"; put(-1, v, [&] { x.b->put<IoBuffer::MetaInfo::WITHOUT>(std::string_view(v)); }); } break;
                case 7: { std::vector<std::int32_t> v(r.below(12)); std::string e = raw(static_cast<std::int32_t>(v.size())); for (auto &q : v) { q = rnd<std::int32_t>(r); e += raw(q); } h += "V"; put(7, e, [&] { x.b->put(v); }); } break;
                case 8: { std::vector<std::string> v(r.below(6)); std::string e = raw(static_cast<std::int32_t>(v.size())); for (auto &q : v) { q = rndStr(r); e += rawStr(q); } h += "T"; put(8, e, [&] { x.b->put(v); }); } break;
                case 9: { std::vector<bool> v(r.below(12)); std::string e = raw(static_cast<std::int32_t>(v.size())); for (std::size_t k = 0; k < v.size(); ++k) { v[k] = r.chance(50); e += static_cast<char>(v[k] ? 1 : 0); } h += "B"; put(9, e, [&] { x.b->put(v); }); } break;
                case 10: { std::array<double, 3> v{ rnd<double>(r), rnd<double>(r), rnd<double>(r) }; std::string e = raw<std::int32_t>(3); for (auto q : v) e += raw(q); h += "A"; put(10, e, [&] { x.b->put(v); }); } break;
                case 11: { std::size_t n = r.below(200); h += "z" + std::to_string(n); auto keep = std::min(n, x.bytes.size()); x.b->resize(n); std::memset(x.b->data() ? x.b->data() + keep : nullptr, 7, n - keep); x.bytes.resize(n, 7); x.items.clear(); } break;
                case 12: { h += "c"; x.b->clear(); x.bytes.clear(); x.pos = 0; x.items.clear(); } break;
                case 13: { h += "r"; x.b->reset(); x.pos = 0; } break;
                case 14: { if (x.fixed) break; std::size_t n = r.below(400); h += "v"; if (r.chance(50)) x.b->reserve(n); else x.b->reserve_spare(n); } break;
                case 15: { if (x.fixed) break; h += "h"; x.b->shrink_to_fit(); VP_CHECK(x.b->capacity() == x.bytes.size(), "not-shrunk", h); } break;
                case 16: { // read everything back
                    if (x.items.empty() && !x.bytes.empty()) break;
                    h += "G"; x.b->reset(); auto &b = *x.b; bool ok = true; std::size_t base = x.items.empty() ? 0 : x.items[0].at; b.set_position(base);
                    for (auto &it : x.items) {
                        std::string got;
                        switch (it.kind) {
                        case 0: got = raw(b.get<std::int8_t>()); break;
                        case 1: got = raw(b.get<std::int16_t>()); break;
                        case 2: got = raw(b.get<std::int32_t>()); break;
                        case 3: got = raw(b.get<std::int64_t>()); break;
                        case 4: got = raw(b.get<double>()); break;
                        case 5: got = r.chance(50) ? rawStr(b.get<std::string>()) : rawStr(std::string(b.get<std::string_view>())); break;
                        case 7: { std::vector<std::int32_t> v(r.below(3)); b.getArray(v); got = raw(static_cast<std::int32_t>(v.size())); for (auto q : v) got += raw(q); } break;
                        case 8: { std::vector<std::string> v(r.below(3)); b.getArray(v); got = raw(static_cast<std::int32_t>(v.size())); for (auto &q : v) got += rawStr(q); } break;
                        case 9: { std::vector<bool> v(r.below(3)); b.getArray(v); got = raw(static_cast<std::int32_t>(v.size())); for (auto q : v) got += static_cast<char>(q ? 1 : 0); } break;
                        case 10: { std::array<double, 3> v{}; b.getArray(v); got = raw<std::int32_t>(3); for (auto q : v) got += raw(q); } break;
                        default: { b.skip(static_cast<int>(it.bytes.size())); got = it.bytes; } break;
                        }
                        ok = ok && got == it.bytes;
                        VP_CHECK(ok, "value-differs", h + " kind " + std::to_string(it.kind));
                        VP_CHECK(b.position() == it.at + it.bytes.size(), "position-differs", h + " kind " + std::to_string(it.kind));
                        if (!ok) break;
                    }
                    x.pos = b.position();
                    c.count("read_back", x.items.size());
                } break;
                case 17: { auto j = r.below(s.size()); if (j == i) break; h += "=" + std::to_string(i) + std::to_string(j); // copy
                    Slot n; n.b = std::make_unique<IoBuffer>(*x.b); n.bytes = x.bytes; n.pos = x.pos; n.items = x.items; s[j] = std::move(n); check(j); } break;
                case 18: { auto j = r.below(s.size()); if (j == i) break; h += ">" + std::to_string(i) + std::to_string(j); // move
                    Slot n; n.b = std::make_unique<IoBuffer>(std::move(*x.b)); n.bytes = x.bytes; n.pos = x.pos; n.items = x.items; n.fixed = x.fixed; s[j] = std::move(n); check(j);
                    VP_CHECK(x.b->empty() && x.b->size() == 0 && x.b->position() == 0, "moved-from-not-empty", h);
                    if (x.fixed || r.chance(50)) x.b.reset(); x.bytes.clear(); x.pos = 0; x.items.clear(); x.fixed = false; } break;
                case 19: { auto j = r.below(s.size()); if (!s[j].b) break; h += "a" + std::to_string(i) + std::to_string(j); // copy assignment
                    *s[j].b = *x.b; if (i != j) { s[j].bytes = x.bytes; s[j].pos = x.pos; s[j].items = x.items; s[j].fixed = false; } check(j); } break;
                case 20: { auto j = r.below(s.size()); if (!s[j].b) break; h += "m" + std::to_string(i) + std::to_string(j); // move assignment
                    *s[j].b = std::move(*x.b); if (i != j) { s[j].bytes = x.bytes; s[j].pos = x.pos; s[j].items = x.items; s[j].fixed = x.fixed; VP_CHECK(x.b->empty() && x.b->size() == 0, "moved-from-not-empty", h); x.b.reset(); } check(j); } break;
                case 21: { auto j = r.below(s.size()); if (!s[j].b || i == j) break; h += "x" + std::to_string(i) + std::to_string(j);
                    x.b->swap(*s[j].b); std::swap(x.bytes, s[j].bytes); std::swap(x.pos, s[j].pos); std::swap(x.items, s[j].items); std::swap(x.fixed, s[j].fixed); check(j); } break;
                case 22: { // checked access
                    auto p = r.below(x.bytes.size() + 3); bool in = p < x.bytes.size();
                    try { auto v = x.b->at<std::uint8_t>(p); VP_CHECK(in && v == static_cast<std::uint8_t>(x.bytes[p]), "checked-access-differs", h); } catch (const std::out_of_range &) { VP_CHECK(!in, "checked-access-refused", h); }
                    auto q = r.below(x.bytes.size() + 3); in = q + 4 <= x.bytes.size();
                    try { auto &v = x.b->at<std::int32_t>(q); std::int32_t got; std::memcpy(&got, &v, 4); VP_CHECK(in && std::memcmp(&got, x.bytes.data() + q, 4) == 0, "checked-access-beyond-end", h + " " + std::to_string(q) + " of " + std::to_string(x.bytes.size())); } catch (const std::out_of_range &) { VP_CHECK(!in, "checked-access-refused", h); }
                    auto d = static_cast<int>(r.below(x.bytes.size() * 2 + 5)) - static_cast<int>(x.bytes.size()) - 2; auto np = static_cast<long>(x.pos) + d; in = np >= 0 && np <= static_cast<long>(x.bytes.size());
                    try { x.b->skip(d); VP_CHECK(in, "skip-outside", h); x.pos = static_cast<std::size_t>(np); } catch (const std::out_of_range &) { VP_CHECK(!in, "skip-refused", h); }
                    auto a = r.below(x.bytes.size() + 3); auto n = static_cast<int>(r.below(x.bytes.size() + 3)); in = a + static_cast<std::size_t>(n) <= x.bytes.size();
                    try { auto t = x.b->asString(a, n); VP_CHECK(in && t == std::string_view(x.bytes).substr(a, static_cast<std::size_t>(n)), "text-differs", h); } catch (const std::out_of_range &) { VP_CHECK(!in, "text-refused", h); }
                } break;
                default: { // reading beyond the end is refused and moves nothing out of range
                    h += "E"; auto save = x.b->position(); auto p = r.below(x.bytes.size() + 2); x.b->set_position(p);
                    auto left = p <= x.bytes.size() ? x.bytes.size() - p : 0;
                    auto rd = [&](auto tag) { using T = decltype(tag); bool threw = false; T v{}; try { v = x.b->get<T>(); } catch (const std::exception &) { threw = true; } VP_CHECK(threw == (left < sizeof(T) || p > x.bytes.size()), "read-beyond-end", h + " " + std::to_string(sizeof(T)) + " of " + std::to_string(left)); if (!threw) VP_CHECK(std::memcmp(&v, x.bytes.data() + p, sizeof(T)) == 0, "value-differs", h); x.b->set_position(p); };
                    rd(std::int8_t{}); rd(std::int16_t{}); rd(std::int32_t{}); rd(std::int64_t{}); rd(float{});
                    std::int32_t len = -1; if (left >= 4) std::memcpy(&len, x.bytes.data() + p, 4);
                    { bool threw = false; std::string v; try { v = x.b->get<std::string>(); } catch (const std::exception &) { threw = true; } bool fits = len >= 1 && static_cast<std::size_t>(len) <= left - 4; VP_CHECK(threw == !fits, "string-beyond-end", h + " length " + std::to_string(len) + " of " + std::to_string(left)); if (!threw && fits) VP_CHECK(v == std::string_view(x.bytes).substr(p + 4, static_cast<std::size_t>(len) - 1), "value-differs", h); x.b->set_position(p); }
                    { bool threw = false; std::vector<std::int16_t> v; try { x.b->getArray(v); } catch (const std::exception &) { threw = true; } bool fits = len >= 0 && static_cast<std::size_t>(len) <= (left - 4) / 2; VP_CHECK(threw == !fits, "array-beyond-end", h + " length " + std::to_string(len) + " of " + std::to_string(left)); x.b->set_position(p); }
                    { bool threw = false; std::array<std::int8_t, 4> v; try { x.b->getArray(v); } catch (const std::exception &) { threw = true; } bool fits = len >= 0 && len <= 4 && static_cast<std::size_t>(len) <= left - 4; VP_CHECK(threw == !fits, "array-beyond-end", h + " length " + std::to_string(len) + " of " + std::to_string(left)); x.b->set_position(p); }
                    { std::vector<std::string> v; try { x.b->getArray(v); } catch (const std::exception &) {} x.b->set_position(p); }
                    x.b->set_position(save);
                } break;
                }
                check(i);
            }
            for (std::size_t i = 0; i < s.size(); ++i) check(i);
        }
        VP_CHECK(ledger.live.empty() && ledger2.live.empty(), "memory-not-returned", h);
        c.distinct(h);
    }
}

template<std::uint32_t N, typename T>
static void multi(vp::Ctx &c) {
    auto &r = c.rng;
    using M = MultiArray<T, N>;
    std::array<std::uint32_t, N> dims; std::size_t total = 1; std::string h = std::to_string(N) + ":";
    for (auto &d : dims) { d = static_cast<std::uint32_t>(r.chance(10) ? 0 : 1 + r.below(5)); total *= d; h += std::to_string(d) + "x"; }
    std::vector<T> e(total); for (auto &v : e) v = static_cast<T>(r.below(100));
    auto copy = e; auto d2 = dims;
    M m = r.chance(50) ? M(e, dims) : M(std::move(copy), std::move(d2));
    c.crumb("multi", h);
    VP_CHECK(m.dimensions() == dims && m.element_count() == total && m.elements() == e, "multiarray-differs", h);
    M z(dims); VP_CHECK(z.element_count() == total && z.elements().size() == total, "multiarray-size", h);
    std::array<std::uint32_t, N> ix{};
    std::set<std::uint32_t> seen;
    for (std::size_t k = 0; k < total; ++k) { // row major: the last index runs fastest
        c.eval();
        VP_CHECK(m.index(ix) == k, "index-differs", h + " " + std::to_string(k) + " got " + std::to_string(m.index(ix)));
        VP_CHECK(m.indices(static_cast<std::uint32_t>(k)) == ix, "indices-differ", h);
        VP_CHECK(m[ix] == e[k] && m[static_cast<std::uint32_t>(k)] == e[k] && m.get(ix) == e[k] && m.get(static_cast<std::uint32_t>(k)) == e[k] && m(static_cast<std::uint32_t>(k)) == e[k], "element-differs", h);
        z[ix] = e[k];
        seen.insert(m.index(ix));
        for (std::size_t d = N; d-- > 0;) { if (++ix[d] < dims[d]) break; ix[d] = 0; }
    }
    VP_CHECK(seen.size() == total, "index-not-unique", h);
    VP_CHECK(z == m, "multiarray-not-equal", h);
    bool threw = false; try { (void) m.get(static_cast<std::uint32_t>(total)); } catch (const std::out_of_range &) { threw = true; } VP_CHECK(threw, "get-beyond-end", h);
    if (total) { M w(m); auto k = r.below(total); w[static_cast<std::uint32_t>(k)] = static_cast<T>(w[static_cast<std::uint32_t>(k)] + 1); VP_CHECK(!(w == m), "different-arrays-equal", h); VP_CHECK(m[static_cast<std::uint32_t>(k)] == e[k], "copy-not-independent", h); }
    M sum = m + z; M plus = m + static_cast<T>(3); M acc(m); acc += z; M acc2(m); acc2 += static_cast<T>(3);
    for (std::size_t k = 0; k < total; ++k) { auto i = static_cast<std::uint32_t>(k); VP_CHECK(sum[i] == static_cast<T>(e[k] + e[k]) && acc[i] == sum[i] && plus[i] == static_cast<T>(e[k] + 3) && acc2[i] == plus[i], "arithmetic-differs", h); }
    VP_CHECK(m.elements() == e && z == m, "operand-changed", h);
    if (N > 1 && total) { auto other = dims; std::swap(other[0], other[N - 1]); if (other != dims) { M o(e, other); VP_CHECK(!(o == m), "different-shapes-equal", h); } }
    c.distinct(h + std::to_string(sizeof(T)));
}

static void s08(vp::Ctx &c) {
    for (std::uint64_t i = 0; i < vp::scaled(4000); ++i) switch (i % 6) {
        case 0: multi<1, int>(c); break; case 1: multi<2, double>(c); break; case 2: multi<3, std::int16_t>(c); break;
        case 3: multi<4, float>(c); break; case 4: multi<2, std::int64_t>(c); break; default: multi<5, int>(c); break;
    }
}

void vp_main(vp::Ctx &c) { if (c.mode == "s08") s08(c); else s01(c); }
