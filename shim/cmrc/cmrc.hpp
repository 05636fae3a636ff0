// Stand-in for CMakeRC (not installed): embedded files are kept in a process-wide map.
#ifndef VP_SHIM_CMRC_HPP
#define VP_SHIM_CMRC_HPP
#include <map>
#include <stdexcept>
#include <string>
#include <system_error>
#include <vector>
namespace cmrc {
class file {
    const std::string *_s = nullptr;
public:
    using iterator = const char *;
    file() = default;
    explicit file(const std::string *s) : _s(s) {}
    const char *begin() const { return _s ? _s->data() : nullptr; }
    const char *end() const { return _s ? _s->data() + _s->size() : nullptr; }
    const char *cbegin() const { return begin(); }
    const char *cend() const { return end(); }
    std::size_t size() const { return _s ? _s->size() : 0; }
};
namespace detail {
inline std::map<std::string, std::string> &files() {
    static auto *m = new std::map<std::string, std::string>;
    return *m;
}
}
struct directory_entry {
    std::string name;
    std::string filename() const { return name; }
    bool is_file() const { return true; }
    bool is_directory() const { return false; }
};
class embedded_filesystem {
    static std::string norm(const std::string &p) {
        std::size_t i = 0;
        while (i < p.size() && p[i] == '/') ++i;
        return p.substr(i);
    }
public:
    bool exists(const std::string &p) const { return detail::files().count(norm(p)) > 0; }
    bool is_file(const std::string &p) const { return exists(p); }
    std::vector<directory_entry> iterate_directory(const std::string &) const { return {}; }
    file open(const std::string &p) const {
        auto it = detail::files().find(norm(p));
        if (it == detail::files().end()) throw std::system_error(std::make_error_code(std::errc::no_such_file_or_directory), p);
        return file(&it->second);
    }
};
}
namespace cmrc::assets { inline embedded_filesystem get_filesystem() { return {}; } }
#define CMRC_DECLARE(libid) \
    namespace cmrc { namespace libid { cmrc::embedded_filesystem get_filesystem(); } } \
    static_assert(true)
#endif
