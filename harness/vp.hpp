// Common monitor runtime for all harnesses: seeded workload generator, violation sink, coverage counters, breadcrumbs.
#pragma once
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <string_view>
#include <sys/mman.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vp {

struct Rng {
    std::uint64_t s;
    explicit Rng(std::uint64_t seed)
        : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
    std::uint64_t next() {
        std::uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z               = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z               = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    std::uint64_t below(std::uint64_t n) { return n ? next() % n : 0; }
    std::int64_t  range(std::int64_t a, std::int64_t b) { return a + static_cast<std::int64_t>(below(static_cast<std::uint64_t>(b - a) + 1)); }
    bool          chance(int pct) { return below(100) < static_cast<std::uint64_t>(pct); }
    template<typename C>
    const auto &pick(const C &c) { return c[below(std::size(c))]; }
    std::string str(std::string_view alphabet, std::size_t minLen, std::size_t maxLen) {
        std::string r;
        auto        n = static_cast<std::size_t>(range(static_cast<std::int64_t>(minLen), static_cast<std::int64_t>(maxLen)));
        for (std::size_t i = 0; i < n; ++i) r += alphabet[below(alphabet.size())];
        return r;
    }
    std::string bytes(std::size_t minLen, std::size_t maxLen) {
        std::string r;
        auto        n = static_cast<std::size_t>(range(static_cast<std::int64_t>(minLen), static_cast<std::int64_t>(maxLen)));
        for (std::size_t i = 0; i < n; ++i) r += static_cast<char>(next() & 0xFF);
        return r;
    }
};

inline std::uint64_t fnv(std::string_view s, std::uint64_t h = 1469598103934665603ull) {
    for (unsigned char c : s) { h = (h ^ c) * 1099511628211ull; }
    return h;
}
inline std::uint64_t mix(std::uint64_t a, std::uint64_t b) { return (a ^ (b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2))) * 0xBF58476D1CE4E5B9ull; }

inline std::string esc(std::string_view s, std::size_t maxLen = 400) {
    std::string o;
    for (std::size_t i = 0; i < s.size(); ++i) {
        if (o.size() > maxLen) { o += "..."; break; }
        unsigned char c = static_cast<unsigned char>(s[i]);
        if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
        else if (c < 0x20 || c >= 0x7F) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += static_cast<char>(c);
    }
    return o;
}

class Ctx {
    std::mutex                           _m;
    FILE                                *_out = nullptr;
    char                                *_crumb = nullptr;
    std::unordered_set<std::uint64_t>    _distinct;
    std::map<std::string, std::uint64_t> _counters;
    std::vector<std::string>             _samples;
    std::map<std::string, int>           _violations;
    std::atomic<std::uint64_t>           _evals{ 0 };

public:
    std::uint64_t seed = 1;
    std::uint64_t scale = 1; // workload multiplier (quick = 1)
    int           shard = 0, shards = 1;
    std::string   mode, replay;
    Rng           rng{ 1 };

    static std::string env(const char *n, const char *d = "") { const char *v = std::getenv(n); return v ? v : d; }
    Ctx() {
        seed   = std::strtoull(env("VP_SEED", "1").c_str(), nullptr, 10);
        scale  = std::max<std::uint64_t>(1, std::strtoull(env("VP_SCALE", "1").c_str(), nullptr, 10));
        shard  = std::atoi(env("VP_SHARD", "0").c_str());
        shards = std::max(1, std::atoi(env("VP_SHARDS", "1").c_str()));
        mode   = env("VP_MODE");
        replay = env("VP_REPLAY");
        rng    = Rng(seed * 1000003ull + static_cast<std::uint64_t>(shard));
        if (auto p = env("VP_OUT"); !p.empty()) _out = std::fopen(p.c_str(), "w");
        if (!_out) _out = stderr;
        if (auto p = env("VP_CRUMB"); !p.empty()) {
            int fd = ::open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
            if (fd >= 0 && ::ftruncate(fd, 8192) == 0) {
                void *m = ::mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                if (m != MAP_FAILED) _crumb = static_cast<char *>(m);
            }
            if (fd >= 0) ::close(fd);
        }
    }
    // "what is being executed now": survives a crash of the process. cls = stable class of the case, detail = the input
    void crumb(std::string_view cls, std::string_view detail = {}) {
        if (!_crumb) return;
        std::string s = std::string(cls) + "\n" + esc(detail, 6000);
        auto        n = std::min<std::size_t>(s.size(), 8000);
        std::memcpy(_crumb, s.data(), n);
        _crumb[n] = 0;
    }
    void eval(std::uint64_t n = 1) { _evals.fetch_add(n, std::memory_order_relaxed); }
    void distinct(std::uint64_t h) { std::scoped_lock l(_m); if (_distinct.size() < 4'000'000) _distinct.insert(h); }
    void distinct(std::string_view s) { distinct(fnv(s)); }
    void count(const std::string &k, std::uint64_t n = 1) { std::scoped_lock l(_m); _counters[k] += n; }
    void sample(std::string_view s) { std::scoped_lock l(_m); if (_samples.size() < 6) _samples.push_back(esc(s, 200)); }
    void violation(const std::string &key, const std::string &detail) {
        std::scoped_lock l(_m);
        int &n = _violations[key];
        if (++n > 3) return;
        std::fprintf(_out, "{\"violation\": \"%s\", \"detail\": \"%s\"}\n", esc(key).c_str(), esc(detail, 3000).c_str());
        std::fflush(_out);
    }
    bool anyViolation() { std::scoped_lock l(_m); return !_violations.empty(); }
    void finish() {
        std::scoped_lock l(_m);
        std::fprintf(_out, "{\"stats\": {\"evaluations\": %llu, \"distinct\": %llu, \"counters\": {", static_cast<unsigned long long>(_evals.load()), static_cast<unsigned long long>(_distinct.size()));
        bool f = true;
        for (auto &[k, v] : _counters) { std::fprintf(_out, "%s\"%s\": %llu", f ? "" : ", ", esc(k).c_str(), static_cast<unsigned long long>(v)); f = false; }
        std::fprintf(_out, "}, \"samples\": [");
        f = true;
        for (auto &s : _samples) { std::fprintf(_out, "%s\"%s\"", f ? "" : ", ", s.c_str()); f = false; }
        std::fprintf(_out, "]}}\n");
        std::fflush(_out);
    }
};

inline Ctx &ctx() { static Ctx *c = new Ctx(); return *c; }

// run f in a forked child; returns "" when it exited 0, otherwise a description ("signal 6", "exit 3", "timeout")
inline std::string isolated(const std::function<int()> &f, int timeoutMs = 20000) {
    std::fflush(nullptr);
    pid_t p = ::fork();
    if (p == 0) {
        int dn = ::open("/dev/null", O_WRONLY);
        ::dup2(dn, 1); ::dup2(dn, 2);
        int rc = 99;
        try { rc = f(); } catch (...) { rc = 98; }
        ::_exit(rc);
    }
    int st = 0;
    for (int waited = 0;; ++waited) {
        pid_t r = ::waitpid(p, &st, WNOHANG);
        if (r == p) break;
        if (waited > timeoutMs) { ::kill(p, 9); ::waitpid(p, &st, 0); return "timeout"; }
        ::usleep(1000);
    }
    if (WIFSIGNALED(st)) return "signal " + std::to_string(WTERMSIG(st));
    if (WEXITSTATUS(st) != 0) return "exit " + std::to_string(WEXITSTATUS(st));
    return "";
}

template<typename F>
inline std::uint64_t scaled(F n) { return static_cast<std::uint64_t>(n) * ctx().scale; }

} // namespace vp

#define VP_CHECK(cond, key, detail) \
    do { \
        vp::ctx().eval(); \
        if (!(cond)) vp::ctx().violation(key, detail); \
    } while (0)

void vp_main(vp::Ctx &c);
#ifndef VP_NO_MAIN
int main() {
    auto &c = vp::ctx();
    try {
        vp_main(c);
    } catch (const std::exception &e) {
        c.violation("uncaught-exception", std::string("std::exception escaped the workload: ") + e.what());
    } catch (...) {
        c.violation("uncaught-exception", "non-std exception escaped the workload");
    }
    c.finish();
    std::fflush(nullptr);
    if (std::getenv("VP_FAST_EXIT")) ::_exit(0);
    return 0;
}
#endif
