// Minimal stand-in for refl-cpp (https://github.com/veselink1/refl-cpp), which is not available offline.
// It reproduces the part of its public interface which opencmw-cpp uses.  It is harness code, not code under test.
#ifndef VERIF_REFL_SHIM_HPP
#define VERIF_REFL_SHIM_HPP
#include <array>
#include <cstddef>
#include <exception>
#include <memory>
#include <ostream>
#include <iomanip>
#include <sstream>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <cstring>
#include <cmath>
#include <algorithm>
#include <vector>
#include <optional>
#include <functional>

namespace refl {
namespace util {
template<std::size_t N>
struct const_string {
    static constexpr std::size_t size = N;
    char                         data[N + 1];
    constexpr const_string() noexcept : data{} {}
    constexpr const_string(const const_string &) noexcept            = default;
    constexpr const_string &operator=(const const_string &) noexcept = default;
    constexpr const_string(const char (&s)[N + 1]) noexcept : data{} {
        for (std::size_t i = 0; i <= N; ++i) data[i] = s[i];
    }
    constexpr const char *c_str() const noexcept { return data; }
    constexpr const char *begin() const noexcept { return data; }
    constexpr const char *end() const noexcept { return data + N; }
    std::string           str() const { return std::string(data, N); }
    constexpr operator const char *() const noexcept { return data; }
    explicit operator std::string() const { return str(); }
    template<std::size_t Pos, std::size_t Count = N - Pos>
    constexpr auto substr() const noexcept {
        constexpr std::size_t     P = Pos < N ? Pos : N;
        constexpr std::size_t     C = (P + Count <= N) ? Count : N - P;
        const_string<C> r;
        for (std::size_t i = 0; i < C; ++i) r.data[i] = data[P + i];
        r.data[C] = 0;
        return r;
    }
    constexpr std::size_t find(char c, std::size_t pos = 0) const noexcept {
        for (std::size_t i = pos; i < N; ++i)
            if (data[i] == c) return i;
        return static_cast<std::size_t>(-1);
    }
};
template<std::size_t M> const_string(const char (&)[M]) -> const_string<M - 1>;
template<std::size_t N, std::size_t M>
constexpr bool operator==(const const_string<N> &a, const const_string<M> &b) noexcept {
    if constexpr (N != M) return false;
    else {
        for (std::size_t i = 0; i < N; ++i)
            if (a.data[i] != b.data[i]) return false;
        return true;
    }
}
template<std::size_t N, std::size_t M>
constexpr bool operator==(const const_string<N> &a, const char (&b)[M]) noexcept { return a == const_string<M - 1>(b); }
template<std::size_t N>
std::ostream &operator<<(std::ostream &os, const const_string<N> &s) { return os << s.str(); }
template<std::size_t M>
constexpr const_string<M - 1> make_const_string(const char (&s)[M]) noexcept { return const_string<M - 1>(s); }

template<typename... Ts>
struct type_list {
    static constexpr std::size_t size = sizeof...(Ts);
};

namespace detail {
template<typename F, typename T>
constexpr decltype(auto) call(F &&f, T t, std::size_t i) {
    if constexpr (std::is_invocable_v<F &, T, std::size_t>) return f(t, i);
    else return f(t);
}
} // namespace detail

template<typename F, typename... Ts>
constexpr void for_each(type_list<Ts...>, F &&f) {
    [&]<std::size_t... I>(std::index_sequence<I...>) { (static_cast<void>(detail::call(f, Ts{}, I)), ...); }(std::index_sequence_for<Ts...>{});
}
template<typename T, typename F, typename... Ts>
constexpr auto map_to_array(type_list<Ts...>, F &&f) {
    return [&]<std::size_t... I>(std::index_sequence<I...>) { return std::array<T, sizeof...(Ts)>{ detail::call(f, Ts{}, I)... }; }(std::index_sequence_for<Ts...>{});
}
template<typename F, typename... Ts>
constexpr auto map_to_tuple(type_list<Ts...>, F &&f) {
    return [&]<std::size_t... I>(std::index_sequence<I...>) { return std::make_tuple(detail::call(f, Ts{}, I)...); }(std::index_sequence_for<Ts...>{});
}
template<typename P, typename... Ts>
constexpr bool contains(type_list<Ts...>, P p) {
    return (false || ... || static_cast<bool>(p(Ts{})));
}
namespace detail {
template<typename P> constexpr void findFirst(type_list<>, P) = delete;
template<typename P, typename T, typename... Ts>
constexpr auto findFirst(type_list<T, Ts...>, P p) {
    if constexpr (p(T{})) return T{};
    else return findFirst(type_list<Ts...>{}, p);
}
} // namespace detail
template<typename P, typename... Ts>
constexpr auto find_first(type_list<Ts...> l, P p) { return detail::findFirst(l, p); }
template<typename P, typename... Ts>
constexpr auto find_one(type_list<Ts...> l, P p) { return detail::findFirst(l, p); }
} // namespace util
using util::const_string;
using util::type_list;
} // namespace refl

namespace refl_impl::metadata {
template<typename T>
struct type_info__ {
    struct invalid_marker {};
};
} // namespace refl_impl::metadata

namespace refl {
namespace trait {
template<typename T>
concept has_info__ = !requires { typename refl_impl::metadata::type_info__<T>::invalid_marker; };
template<typename T>
struct is_reflectable : std::bool_constant<has_info__<std::remove_cv_t<T>>> {};
template<typename T>
inline constexpr bool is_reflectable_v = is_reflectable<T>::value;
} // namespace trait
namespace descriptor {
template<typename T> class type_descriptor;

template<typename T, std::size_t N>
struct field_descriptor {
    using declaring_type = T;
    using member_type__  = typename refl_impl::metadata::type_info__<T>::template member<N>;
    using value_type     = typename member_type__::value_type;
    static constexpr auto name      = member_type__::name;
    static constexpr auto pointer   = member_type__::pointer();
    static constexpr bool is_static_v = !std::is_member_object_pointer_v<decltype(member_type__::pointer())>;
    static constexpr type_descriptor<T> declarator{};
    template<typename U>
    constexpr decltype(auto) operator()(U &&target) const noexcept {
        if constexpr (is_static_v) return (*pointer);
        else return (member_type__::get(std::forward<U>(target)));
    }
};

namespace detail {
template<typename T, typename Seq> struct members_of;
template<typename T, std::size_t... I>
struct members_of<T, std::index_sequence<I...>> { using type = util::type_list<field_descriptor<T, I>...>; };
}
template<typename T>
using member_list = typename detail::members_of<T, std::make_index_sequence<refl_impl::metadata::type_info__<T>::member_count>>::type;

template<typename T>
class type_descriptor {
public:
    using type = T;
    static constexpr auto name = refl_impl::metadata::type_info__<T>::name;
    static constexpr member_list<T> members{};
    static constexpr member_list<T> declared_members{};
};

template<typename T> constexpr auto get_name(type_descriptor<T>) noexcept { return type_descriptor<T>::name; }
template<typename T> constexpr auto get_members(type_descriptor<T>) noexcept { return type_descriptor<T>::members; }
template<typename T, std::size_t N> constexpr auto get_name(field_descriptor<T, N>) noexcept { return field_descriptor<T, N>::name; }
template<typename T, std::size_t N> constexpr bool is_field(field_descriptor<T, N>) noexcept { return true; }
template<typename T, std::size_t N> constexpr bool is_function(field_descriptor<T, N>) noexcept { return false; }
template<typename T, std::size_t N> constexpr bool is_static(field_descriptor<T, N>) noexcept { return field_descriptor<T, N>::is_static_v; }
template<typename T, std::size_t N> constexpr bool is_writable(field_descriptor<T, N>) noexcept { return !std::is_const_v<typename field_descriptor<T, N>::value_type>; }
template<typename T, std::size_t N> constexpr bool is_readable(field_descriptor<T, N>) noexcept { return true; }
template<typename T, std::size_t N> constexpr const char *get_display_name(field_descriptor<T, N>) noexcept { return field_descriptor<T, N>::name.data; }
template<typename T, std::size_t N>
const char *get_debug_name(field_descriptor<T, N>) {
    static const std::string s = type_descriptor<T>::name.str() + "::" + field_descriptor<T, N>::name.str();
    return s.c_str();
}
} // namespace descriptor
using descriptor::type_descriptor;
using descriptor::field_descriptor;

template<typename T> constexpr bool is_reflectable() noexcept { return trait::is_reflectable_v<T>; }
template<typename T> constexpr bool is_reflectable(const T &) noexcept { return trait::is_reflectable_v<T>; }
template<typename T> constexpr auto reflect() noexcept { return descriptor::type_descriptor<std::remove_cv_t<T>>{}; }
template<typename T> constexpr auto reflect(const T &) noexcept { return descriptor::type_descriptor<std::remove_cv_t<T>>{}; }
} // namespace refl

#define REFL_DETAIL_STR_IMPL(...) #__VA_ARGS__
#define REFL_DETAIL_STR(...) REFL_DETAIL_STR_IMPL(__VA_ARGS__)

#define REFL_TYPE(TypeName, ...) \
    namespace refl_impl::metadata { \
    template<> \
    struct type_info__<TypeName> { \
        using type = TypeName; \
        static constexpr auto name = ::refl::util::make_const_string(#TypeName); \
        static constexpr std::size_t member_index_offset = __COUNTER__ + 1; \
        template<std::size_t, typename = void> struct member {};
#define REFL_END \
        static constexpr std::size_t member_count = __COUNTER__ - member_index_offset; \
    }; \
    }
#define REFL_FIELD(FieldName, ...) \
        template<typename Unused__> \
        struct member<__COUNTER__ - member_index_offset, Unused__> { \
            using value_type = decltype(type::FieldName); \
            static constexpr auto name = ::refl::util::make_const_string(#FieldName); \
            static constexpr auto pointer() noexcept { return &type::FieldName; } \
            template<typename U> static constexpr auto get(U &&t) noexcept -> decltype((std::forward<U>(t).FieldName)) { return (std::forward<U>(t).FieldName); } \
        };
#define REFL_DETAIL_EX_1_field(X, ...) REFL_FIELD(X)

#define REFL_SHIM_PARENS ()
#define REFL_SHIM_EXPAND(...) REFL_SHIM_EXPAND4(REFL_SHIM_EXPAND4(REFL_SHIM_EXPAND4(REFL_SHIM_EXPAND4(__VA_ARGS__))))
#define REFL_SHIM_EXPAND4(...) REFL_SHIM_EXPAND3(REFL_SHIM_EXPAND3(REFL_SHIM_EXPAND3(REFL_SHIM_EXPAND3(__VA_ARGS__))))
#define REFL_SHIM_EXPAND3(...) REFL_SHIM_EXPAND2(REFL_SHIM_EXPAND2(REFL_SHIM_EXPAND2(REFL_SHIM_EXPAND2(__VA_ARGS__))))
#define REFL_SHIM_EXPAND2(...) REFL_SHIM_EXPAND1(REFL_SHIM_EXPAND1(REFL_SHIM_EXPAND1(REFL_SHIM_EXPAND1(__VA_ARGS__))))
#define REFL_SHIM_EXPAND1(...) __VA_ARGS__
#define REFL_SHIM_STEP(macro, a1, ...) macro(a1) __VA_OPT__(REFL_SHIM_AGAIN REFL_SHIM_PARENS(macro, __VA_ARGS__))
#define REFL_SHIM_AGAIN() REFL_SHIM_STEP
#define REFL_DETAIL_FOR_EACH(macro, ...) __VA_OPT__(REFL_SHIM_EXPAND(REFL_SHIM_STEP(macro, __VA_ARGS__)))

#endif
