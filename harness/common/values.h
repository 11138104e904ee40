// Values of several types, made of an integer such that different integers
// (of 8 bits) give different values
#pragma once
#include "vf.h"

#include <array>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <tuple>
#include <variant>
#include <vector>

#ifndef VF_POINT
#define VF_POINT
struct Point {
    int x, y;
    bool operator==(const Point &) const = default;
};
#endif

struct Large {
    long head;
    int body[30];
    char tail;
    bool operator==(const Large &) const = default;
};
struct Huge {
    char body[1500];
    bool operator==(const Huge &) const = default;
};
struct alignas(32) Aligned {
    int v;
    bool operator==(const Aligned &) const = default;
};
// cannot be default constructed, nor converted to implicitly
struct Exact {
    explicit Exact(long v) : v{ v } {}
    Exact() = delete;
    bool operator==(const Exact &) const = default;
    long v;
};
// refers to itself
struct Anchored {
    int v;
    const int *self = &v;
    Anchored(int v) : v{ v } {}
    Anchored(const Anchored &o) : v{ *o.self } {}
    Anchored &operator=(const Anchored &o) { v = *o.self; return *this; }
    bool operator==(const Anchored &o) const { return self == &v && o.self == &o.v && v == o.v; }
};
// as small as a class without state
struct Byte {
    unsigned char v;
    explicit Byte(unsigned char v) : v{ v } {}
    bool operator==(const Byte &) const = default;
};
struct Flags {
    bool low : 1, high : 1;
    bool operator==(const Flags &) const = default;
};
enum class Shade : unsigned char {};
// derived ones, with and without virtual functions
struct Sub : Point {
    short z;
    bool operator==(const Sub &) const = default;
};
struct Shape {
    int v;
    Shape(int v) : v{ v } {}
    virtual int area() const { return v; }
};
struct Square : Shape {
    int side;
    explicit Square(int v) : Shape{ -1 }, side{ v } {}
    int area() const override { return side; }
    bool operator==(const Square &o) const { const Shape &a = *this, &b = o; return a.area() == b.area() && v == -1 && o.v == -1; }
};
// a list of its own kind, if constructed with braces
struct Json {
    int v = 0, depth = 0;
    Json(int v) : v{ v } {}
    Json(std::initializer_list<Json> l) : v{ l.begin()->v }, depth{ l.begin()->depth + 1 } {}
    Json(const Json &) = default;
    Json &operator=(const Json &) = default;
    bool operator==(const Json &) const = default;
};
struct Final final {
    int v;
    bool operator==(const Final &) const = default;
};
union Either {
    long l;
    char c;
    bool operator==(const Either &o) const { return l == o.l; }
};
// differs from others in what can be done with it: no comma, address or conversion
struct Strict {
    int v;
    explicit Strict(int v) : v{ v } {}
    template<typename T>
    void operator,(T &&) const = delete;
    bool operator==(const Strict &) const = default;
    explicit operator bool() const = delete;
    bool operator!() const = delete;
};
static int numbers[256];
template<int n>
static int plus_n(int x) { return x + n; }
using Function = int (*)(int);
using Member = int Point::*;
using Reference = std::reference_wrapper<int>;
using Single = std::tuple<short>;
using Twin = std::tuple<int, std::string>;
using Variant = std::variant<int, std::string>;
using View = std::string_view;
using Nested = std::optional<std::optional<int>>;
using Bools = std::vector<bool>;
using Nine = std::array<int, 9>;
using Words = std::array<std::string, 2>;
using Maybe = std::optional<std::string>;

#ifdef CONTAINERS
#include "common/nodes.h"
using Chars = std::vector<char>;
using Shorts = std::array<short, 40>;
using List = std::list<int>;
using Map = std::map<int, char>;
using Rows = std::vector<std::vector<int>>;
template<typename T>
static T make_container(unsigned char key) {
    if constexpr (std::is_same_v<T, Chars>) {
        Chars r(70, 'x');
        r[65] = char(key);
        return r;
    } else if constexpr (std::is_same_v<T, Shorts>) {
        Shorts r{};
        r[33] = key;
        return r;
    } else if constexpr (std::is_same_v<T, List>) return { 3, 4, key };
    else if constexpr (std::is_same_v<T, Map>) return { { 3, 4 }, { 2, char(key) } };
    else return { { 1 }, {}, { 2, key } };
}
template<typename T>
constexpr bool is_container = std::is_same_v<T, Chars> || std::is_same_v<T, Shorts> || std::is_same_v<T, List> || std::is_same_v<T, Map> || std::is_same_v<T, Rows>;
#else
template<typename T>
constexpr bool is_container = false;
template<typename T>
static T make_container(unsigned char key);
#endif

template<typename T>
static T make(unsigned char key) {
    if constexpr (std::is_same_v<T, std::string>) {
        std::string r(20, 'x');
        r[19] = char(key);
        return r;
    } else if constexpr (std::is_same_v<T, std::vector<int>>) return std::vector<int>{ 7, key };
    else if constexpr (std::is_same_v<T, std::pair<std::string, int>>) return { std::string(20, 'x'), key };
    else if constexpr (std::is_same_v<T, Point>) return { 3, key };
    else if constexpr (std::is_same_v<T, Large>) {
        Large r{};
        r.body[29] = key;
        return r;
    } else if constexpr (std::is_same_v<T, Huge>) {
        Huge r{};
        r.body[1301] = key;
        return r;
    } else if constexpr (std::is_same_v<T, std::optional<int>>) return key ? std::optional<int>{ key } : std::nullopt;
    else if constexpr (std::is_same_v<T, std::shared_ptr<int>>) {
        static const auto some = std::make_shared<int>(1), other = std::make_shared<int>(1);
        return key & 1 ? some : other;
    } else if constexpr (std::is_same_v<T, Flags>) return { bool(key & 1), bool(key & 2) };
    else if constexpr (std::is_same_v<T, Sub>) return { { 3, 4 }, key };
    else if constexpr (std::is_same_v<T, Nine>) return { 1, 2, 3, 4, 5, 6, 7, 8, key };
    else if constexpr (std::is_same_v<T, Words>) return { std::string("a"), std::string(20, char(key)) };
    else if constexpr (std::is_same_v<T, Maybe>) return key ? Maybe{ std::string(18, char(key)) } : std::nullopt;
    else if constexpr (std::is_same_v<T, Final>) return { key };
    else if constexpr (std::is_same_v<T, Either>) return { .l = key };
    else if constexpr (std::is_same_v<T, Function>) return key ? plus_n<1> : plus_n<2>;
    else if constexpr (std::is_same_v<T, Member>) return key ? &Point::x : &Point::y;
    else if constexpr (std::is_same_v<T, Reference>) {
        numbers[key] = key;
        return numbers[key];
    } else if constexpr (std::is_same_v<T, Single>) return { short(key) };
    else if constexpr (std::is_same_v<T, Twin>) return { 4, std::string(17, char(key)) };
    else if constexpr (std::is_same_v<T, Variant>) return key & 1 ? T{ int(key) } : T{ std::string(16, char(key)) };
    else if constexpr (std::is_same_v<T, View>) return View("abcdefgh", 8).substr(key & 3, 3);
    else if constexpr (std::is_same_v<T, Nested>) return key == 0 ? T{} : key == 1 ? T{ std::optional<int>{} } : T{ int(key) };
    else if constexpr (std::is_same_v<T, Bools>) return { true, bool(key & 1), bool(key & 2) };
    else if constexpr (std::is_same_v<T, const char *>) return "abcdefgh" + (key & 7);
    else if constexpr (is_container<T>) return make_container<T>(key);
    else return T(key);
}
template<typename T = int>
static unsigned char any_key() {
    if constexpr (std::is_same_v<T, std::shared_ptr<int>>) return vf_nondet_bool();
    else if constexpr (std::is_same_v<T, bool>) return vf_choose(2);
    else if constexpr (std::is_same_v<T, Function> || std::is_same_v<T, Member> || std::is_same_v<T, Reference> || std::is_same_v<T, Bools> || std::is_same_v<T, View>) return vf_choose(2);
    else if constexpr (std::is_same_v<T, Flags>) return vf_choose(4);
    else if constexpr (std::is_same_v<T, const char *>) return vf_choose(8);
    else return vf_nondet_i8();
}
