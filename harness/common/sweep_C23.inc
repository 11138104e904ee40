// BOUNDS: uncaptured values, arguments of the call, elements and results of 40 types; move-only arguments; all values of 8 bits
#include "common/tuple_common.h"
#include "common/sweep.h"

#include <functional>

#include "pigro/to_tuple.h"
#include "pigro/uncapture.h"

using pigro::to_tuple;
using pigro::uncaptured;
static constexpr auto check = []<typename T>(Each<T>) {
    const unsigned char k = any_key<T>(), l = any_key<T>(), p = any_key<T>();
    T x = sample<T>(p);
    auto f = uncaptured(sample<T>(k)) >> [](const T &a, const T &b) { return std::pair<T, T>{ a, b }; };
    const auto &fk = f;
    CHECK("a single one", f(x) == std::pair<T, T>{ x, sample<T>(k) } && fk(x) == std::pair<T, T>{ x, sample<T>(k) });
    auto g = uncaptured(sample<T>(k), 5, sample<T>(l)) >> [](const T &a, const T &b, int i, const T &c) { return i == 5 ? std::tuple<T, T, T>{ a, b, c } : std::tuple<T, T, T>{ a, a, a }; };
    CHECK("several", g(x) == std::tuple<T, T, T>{ x, sample<T>(k), sample<T>(l) } && std::as_const(g)(x) == g(x));
    auto s = uncaptured(sample<T>(k)) >> [](const T &next, T &state) { T r = state; state = next; return r; };
    CHECK("state", s(x) == sample<T>(k));
    auto c = s;
    CHECK("state is kept", s(sample<T>(l)) == x && s(x) == sample<T>(l));
    CHECK("also by a copy", c(x) == x && c(x) == x);
    auto r = uncaptured(sample<T>(k)) >> [](T &a, const T &) -> T & { return a; };
    CHECK("the argument itself", &r(x) == &x && &std::as_const(r)(x) == &x);
    auto m = uncaptured(1) >> [](auto &&a, int) { return std::is_rvalue_reference_v<decltype(a)> * 2 + std::is_const_v<std::remove_reference_t<decltype(a)>>; };
    CHECK("arguments as they are", m(x) == 0 && m(std::as_const(x)) == 1 && m(std::move(x)) == 2 && m(std::move(std::as_const(x))) == 3);
    CHECK("arguments as they are, constant", std::as_const(m)(x) == 0 && std::as_const(m)(std::as_const(x)) == 1 && std::as_const(m)(std::move(x)) == 2);
    auto t = compressed_tuple{ sample<T>(k), 3, sample<T>(l) };
    auto u = to_tuple(t);
    CHECK("the elements themselves", &std::get<0>(u) == &pigro::get<0>(t) && &std::get<1>(u) == &pigro::get<1>(t) && &std::get<2>(u) == &pigro::get<2>(t));
    CHECK("their values", std::get<0>(u) == sample<T>(k) && std::get<2>(u) == sample<T>(l));
    auto v = to_tuple(std::move(t));
    static_assert(std::is_same_v<decltype(u), std::tuple<T &, int &, T &>> && std::is_same_v<decltype(v), std::tuple<T &&, int &&, T &&>>);
    CHECK("movable, but not moved", &std::get<2>(v) == &pigro::get<2>(t) && pigro::get<2>(t) == sample<T>(l));
    auto refs = compressed_tuple<T &, const T &>{ x, x };
    CHECK("references", &std::get<0>(to_tuple(refs)) == &x && &std::get<1>(to_tuple(refs)) == &x);
};
