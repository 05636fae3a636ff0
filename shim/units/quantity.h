// Minimal stand-in for mp-units v0.8 (not available offline): harness code, not code under test.
#ifndef VERIF_UNITS_SHIM_H
#define VERIF_UNITS_SHIM_H
#include <chrono>
#include <compare>
#include <concepts>
#include <cstddef>
#include <cstdint>
#include <format>
#include <iostream>
#include <ratio>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>

namespace units {
template<typename CharT, std::size_t N>
struct basic_fixed_string {
    CharT data_[N + 1] = {};
    using value_type   = CharT;
    constexpr explicit(false) basic_fixed_string(CharT ch) noexcept requires(N == 1) { data_[0] = ch; }
    constexpr explicit(false) basic_fixed_string(const CharT (&txt)[N + 1]) noexcept {
        for (std::size_t i = 0; i < N; ++i) data_[i] = txt[i];
    }
    [[nodiscard]] constexpr bool         empty() const noexcept { return N == 0; }
    [[nodiscard]] constexpr std::size_t  size() const noexcept { return N; }
    [[nodiscard]] constexpr const CharT *data() const noexcept { return data_; }
    [[nodiscard]] constexpr const CharT *c_str() const noexcept { return data(); }
    [[nodiscard]] constexpr const CharT &operator[](std::size_t i) const noexcept { return data_[i]; }
    [[nodiscard]] constexpr auto         operator==(const basic_fixed_string &o) const { return std::basic_string_view<CharT>(c_str()) == std::basic_string_view<CharT>(o.c_str()); }
    template<std::size_t N2>
    [[nodiscard]] friend constexpr bool operator==(const basic_fixed_string &, const basic_fixed_string<CharT, N2> &) { return false; }
};
template<typename CharT, std::size_t N>
basic_fixed_string(const CharT (&)[N]) -> basic_fixed_string<CharT, N - 1>;
template<typename CharT>
basic_fixed_string(CharT) -> basic_fixed_string<CharT, 1>;
template<std::size_t N>
using fixed_string = basic_fixed_string<char, N>;

template<typename T, typename U>
inline constexpr bool is_same_v = false;
template<typename T>
inline constexpr bool is_same_v<T, T> = true;

namespace detail {
template<typename T, template<typename...> typename Type>
inline constexpr bool is_spec = false;
template<typename... P, template<typename...> typename Type>
inline constexpr bool is_spec<Type<P...>, Type> = true;
template<template<typename...> typename Type, typename... P>
void to_base_spec(const volatile Type<P...> *);
} // namespace detail
template<typename T, template<typename...> typename Type>
inline constexpr bool is_specialization_of = detail::is_spec<T, Type>;
template<typename T, template<typename...> typename Type>
inline constexpr bool is_derived_from_specialization_of = requires(T *t) { detail::to_base_spec<Type>(t); };

template<basic_fixed_string Ascii>
struct unit_base {
    static constexpr auto text = Ascii;
};
template<basic_fixed_string Symbol>
struct dimension_base {
    static constexpr auto symbol = Symbol;
};
struct dim_one : dimension_base<""> {};
struct one : unit_base<""> {};
template<typename T> concept Dimension = requires { T::symbol; };
template<typename T> concept Unit = requires { T::text; };

namespace detail {
template<typename D, typename U>
struct text_holder {
    constexpr auto ascii() const noexcept { return U::text; }
};
template<Dimension D, Unit U>
constexpr text_holder<D, U> unit_text() { return {}; }
} // namespace detail

template<Dimension D, Unit U, typename Rep = double>
class quantity {
    Rep number_{};

public:
    using dimension = D;
    using unit      = U;
    using rep       = Rep;
    quantity()      = default;
    quantity(const quantity &)            = default;
    quantity(quantity &&)                 = default;
    quantity &operator=(const quantity &) = default;
    quantity &operator=(quantity &&)      = default;
    template<typename T>
        requires std::is_convertible_v<T, Rep>
    constexpr explicit(!std::is_same_v<D, dim_one>) quantity(const T &v) : number_(static_cast<Rep>(v)) {}
    template<typename R2>
        requires(!std::is_same_v<R2, Rep> && std::is_convertible_v<R2, Rep>)
    constexpr quantity(const quantity<D, U, R2> &q) : number_(static_cast<Rep>(q.number())) {}
    [[nodiscard]] constexpr Rep        &number() & noexcept { return number_; }
    [[nodiscard]] constexpr const Rep  &number() const & noexcept { return number_; }
    [[nodiscard]] constexpr Rep       &&number() && noexcept { return std::move(number_); }
    [[nodiscard]] constexpr const Rep &&number() const && noexcept { return std::move(number_); }
    friend constexpr auto operator<=>(const quantity &a, const quantity &b) { return a.number_ <=> b.number_; }
    friend constexpr bool operator==(const quantity &a, const quantity &b) { return a.number_ == b.number_; }
    template<typename T> requires std::is_arithmetic_v<T>
    friend constexpr bool operator==(const quantity &a, const T &b) { return a.number_ == static_cast<Rep>(b); }
    friend constexpr quantity operator+(const quantity &a, const quantity &b) { return quantity(static_cast<Rep>(a.number_ + b.number_)); }
    template<typename R2> requires(!std::is_same_v<R2, Rep>)
    friend constexpr quantity<D, U, std::common_type_t<Rep, R2>> operator+(const quantity &a, const quantity<D, U, R2> &b) { return quantity<D, U, std::common_type_t<Rep, R2>>(a.number_ + b.number()); }
    template<typename R2> constexpr quantity &operator+=(const quantity<D, U, R2> &o) { number_ = static_cast<Rep>(number_ + o.number()); return *this; }
    friend constexpr quantity operator-(const quantity &a, const quantity &b) { return quantity(static_cast<Rep>(a.number_ - b.number_)); }
    template<typename T> requires std::is_arithmetic_v<T>
    constexpr quantity &operator*=(const T &f) { number_ = static_cast<Rep>(number_ * f); return *this; }
    template<typename T> requires std::is_arithmetic_v<T>
    friend constexpr quantity operator*(const T &f, const quantity &q) { return quantity(static_cast<Rep>(f * q.number_)); }
    template<typename T> requires std::is_arithmetic_v<T>
    friend constexpr quantity operator*(const quantity &q, const T &f) { return quantity(static_cast<Rep>(f * q.number_)); }
    template<typename C, typename T>
    friend std::basic_ostream<C, T> &operator<<(std::basic_ostream<C, T> &os, const quantity &q) { return os << q.number_ << ' ' << U::text.c_str(); }
};
namespace detail {
template<typename T> inline constexpr bool is_quantity = false;
template<typename D, typename U, typename R> inline constexpr bool is_quantity<quantity<D, U, R>> = true;
} // namespace detail
template<typename T> concept Quantity = detail::is_quantity<std::remove_cv_t<T>>;
namespace detail {
template<typename T> inline constexpr bool is_duration = false;
template<typename R, typename P> inline constexpr bool is_duration<std::chrono::duration<R, P>> = true;
} // namespace detail
template<typename T> concept QuantityLike = detail::is_duration<std::remove_cv_t<T>>;
template<typename T> concept wrapped_quantity_ = requires { typename T::value_type; requires Quantity<typename T::value_type>; };
template<typename T> concept scalable_ = std::is_arithmetic_v<std::remove_cv_t<T>>;
template<typename T> concept Representation = !Quantity<T> && !QuantityLike<T> && !wrapped_quantity_<T> && std::regular<T> && scalable_<T>;

template<Unit U, typename Rep = double>
using dimensionless = quantity<dim_one, U, Rep>;

namespace isq {
template<basic_fixed_string S> struct dim_time_base : dimension_base<S> {};
namespace si {
#define VERIF_DIM(NAME, SYM) \
    struct dim_##NAME : dimension_base<SYM> {}; \
    template<Unit U, typename Rep = double> using NAME = quantity<dim_##NAME, U, Rep>;
VERIF_DIM(time, "T")
VERIF_DIM(length, "L")
VERIF_DIM(mass, "M")
VERIF_DIM(speed, "V")
VERIF_DIM(energy, "E")
VERIF_DIM(resistance, "R")
VERIF_DIM(electric_current, "I")
#undef VERIF_DIM
struct second : unit_base<"s"> { static constexpr long double ratio = 1.0L; };
struct millisecond : unit_base<"ms"> {};
struct microsecond : unit_base<"us"> {};
struct nanosecond : unit_base<"ns"> {};
struct metre : unit_base<"m"> {};
struct kilometre : unit_base<"km"> {};
struct kilogram : unit_base<"kg"> {};
struct gram : unit_base<"g"> {};
struct metre_per_second : unit_base<"m/s"> {};
struct kilometre_per_hour : unit_base<"km/h"> {};
struct joule : unit_base<"J"> {};
struct gigaelectronvolt : unit_base<"GeV"> {};
struct electronvolt : unit_base<"eV"> {};
struct ohm : unit_base<"Ohm"> {};
struct kiloohm : unit_base<"kOhm"> {};
struct ampere : unit_base<"A"> {};
} // namespace si
namespace si { inline namespace literals {
constexpr auto operator""_q_m(unsigned long long v) { return length<metre, std::int64_t>(static_cast<std::int64_t>(v)); }
constexpr auto operator""_q_A(unsigned long long v) { return electric_current<ampere, std::int64_t>(static_cast<std::int64_t>(v)); }
} }
template<typename T> concept Time = requires { typename T::dimension; } && std::is_same_v<typename T::dimension, si::dim_time>;
namespace si { }
} // namespace isq
// chrono interop (units/chrono.h)
} // namespace units
#endif
