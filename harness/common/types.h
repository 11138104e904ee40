#pragma once
#include "common/lazy_common.h"

#include <array>
#include <cstring>
#include <string_view>
#include <variant>

static int targets[4];
struct Derived : Point {
    short z;
    bool operator==(const Derived &) const = default;
};
struct Bits {
    int low : 5;
    unsigned high : 11;
    bool last : 1;
    bool operator==(const Bits &) const = default;
};
enum class Wide : long {};
enum Plain : int { plain };
using Either = std::variant<int, short, Point>;
using Function = int (*)(int);
using Member = int Point::*;
static int function_a(int x) { return x; }
static int function_b(int x) { return x + 1; }
struct Keyed { // compares only what matters
    int key;
    int note = 0;
    bool operator==(const Keyed &o) const { return key == o.key; }
};
// one of a few numbers that depend on the precision
template<typename T>
struct Special {
    T v;
    operator T() const { return v; }
};
template<typename T, bool sized = true>
T any_value() {
    if constexpr (std::is_same_v<T, bool>) return vf_nondet_bool();
    else if constexpr (std::is_enum_v<T> && sizeof(T) == 1) return T(vf_nondet_i8());
    else if constexpr (std::is_enum_v<T>) return T(any_value<std::underlying_type_t<T>>());
    else if constexpr (std::is_same_v<T, Special<double>>) {
        static const double values[] = { 1.0 / 3, 1e300, -0.0, 0.0 };
        return { values[sized ? vf_pick(4) : 0] };
    } else if constexpr (std::is_same_v<T, Special<long double>>) {
        static const long double values[] = { 1.0L / 3, 1e4000L, 1.0L / 3 + 0x1p-64L, 0 };
        return { values[sized ? vf_pick(4) : 0] };
    }
    else if constexpr (std::is_same_v<T, int *>) return targets + vf_choose(4);
    else if constexpr (std::is_same_v<T, const char *>) {
        static const char text[] = "abc";
        return text + vf_choose(3);
    } else if constexpr (std::is_floating_point_v<T>) {
        T v;
        if constexpr (std::is_same_v<T, float>) v = vf_nondet_float();
        else v = vf_nondet_double();
        vf_assume(v == v);
        return v;
    }
    else if constexpr (std::is_integral_v<T> && sizeof(T) == 1) return T(vf_nondet_i8());
    else if constexpr (std::is_integral_v<T> && sizeof(T) == 2) return T(vf_nondet_i16());
    else if constexpr (std::is_integral_v<T> && sizeof(T) == 4) return T(vf_nondet_i32());
    else if constexpr (sizeof(T) == 16 && std::is_integral_v<T>) {
        T v = vf_nondet_i64();
        return v << 64 | T((unsigned long)vf_nondet_i64());
    } else if constexpr (std::is_integral_v<T>) return T(vf_nondet_i64());
    else if constexpr (std::is_same_v<T, Point>) return Point{ vf_nondet_i32(), vf_nondet_i32() };
    else if constexpr (std::is_same_v<T, Padded>) return Padded{ char(vf_nondet_i8()), vf_nondet_i32(), vf_nondet_i16() };
    else if constexpr (std::is_same_v<T, std::pair<int, char>>) return { vf_nondet_i32(), char(vf_nondet_i8()) };
    else if constexpr (std::is_same_v<T, std::tuple<int, bool>>) return { vf_nondet_i32(), vf_nondet_bool() };
    else if constexpr (std::is_same_v<T, std::optional<int>>) return vf_nondet_bool() ? std::optional<int>{ vf_nondet_i32() } : std::nullopt;
    else if constexpr (std::is_same_v<T, std::array<int, 3>>) return { vf_nondet_i32(), vf_nondet_i32(), vf_nondet_i32() };
    else if constexpr (std::is_same_v<T, Derived>) return Derived{ { vf_nondet_i32(), vf_nondet_i32() }, vf_nondet_i16() };
    else if constexpr (std::is_same_v<T, Bits>) return Bits{ vf_range(-16, 16), unsigned(vf_range(0, 2048)), vf_nondet_bool() };
    else if constexpr (std::is_same_v<T, Keyed>) return Keyed{ vf_nondet_i32() };
    else if constexpr (std::is_same_v<T, Function>) return vf_nondet_bool() ? function_a : function_b;
    else if constexpr (std::is_same_v<T, Member>) return vf_nondet_bool() ? &Point::x : &Point::y;
    else if constexpr (std::is_same_v<T, std::string_view>) return std::string_view("abab", 4).substr(vf_pick(3), 2);
    else if constexpr (std::is_same_v<T, std::pair<Point, Point>>) return { any_value<Point>(), any_value<Point>() };
    else if constexpr (std::is_same_v<T, std::array<short, 2>>) return { vf_nondet_i16(), vf_nondet_i16() };
    else if constexpr (std::is_same_v<T, Either>) {
        switch (vf_pick(3)) {
        case 0: return Either{ vf_nondet_i32() };
        case 1: return Either{ vf_nondet_i16() };
        default: return Either{ any_value<Point>() };
        }
    } else if constexpr (std::is_same_v<T, std::string>) {
        char c[2] = { char('a' + vf_choose(2)), 'x' };
        return std::string(c, sized ? vf_pick(2) + 1 : 2);
    } else {
        static_assert(std::is_same_v<T, std::vector<int>>);
        T v;
        for (unsigned i = sized ? vf_pick(2) + 1 : 2; i; --i) v.push_back(vf_nondet_i32());
        return v;
    }
}

// as a plain value, through a function, and through a lazy function
template<typename T, typename Any = T>
static void flow() {
    T v = any_value<Any>(), a = any_value<Any>();
    const T v0 = v;
    int e1 = 0, e2 = 0;
    auto g = lazy([&](auto &&x) { ++e1; return x; }, [&]() -> const T & { return a; });
    auto f = lazy([&](T x, const T &y, int n) { ++e2; return std::pair<T, T>{ x, y }; }, v, g, 7);
    static_assert(std::is_same_v<decltype(g()), T>);
    EVALS("nothing is evaluated at construction", e1 == 0 && e2 == 0);
    v = any_value<Any, false>(); // the dependency is a copy
    Model<T> m;
    for (int i = 0; i < HIST(3); ++i) {
        bool again = m.call(a);
        auto r = f();
        VALUE("the plain value arrives intact", r.first == v0);
        VALUE("the value of the lazy function arrives intact", r.second == a);
        EVALS("the outer function is evaluated only when needed", e2 == m.evaluations);
        VALUE("the value of the function arrives intact", g() == a);
        EVALS("the inner functions are evaluated only when needed", e1 == 2 * m.evaluations);
        if (i && again) COVER("changed");
        if (!again) COVER("same");
        a = any_value<Any>();
    }
}
