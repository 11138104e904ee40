// BOUNDS: elements and references of 40 types, next to values and stateless elements; all values of 8 bits
#include "common/tuple_common.h"
#include "common/sweep.h"

static constexpr auto check = []<typename T>(Each<T>) {
    const unsigned char k = any_key<T>(), l = any_key<T>();
    T x = sample<T>(k);
    const T y = sample<T>(l);
    auto t = compressed_tuple<T &, int, const T &, T>{ x, 3, y, x };
    const auto &c = t;
    auto u = t;
    static_assert(std::is_same_v<decltype(pigro::get<0>(t)), T &> && std::is_same_v<decltype(pigro::get<2>(t)), const T &> && std::is_same_v<decltype(pigro::get<3>(t)), T &>);
    static_assert(std::is_same_v<decltype(pigro::get<3>(c)), const T &> && std::is_same_v<decltype(pigro::get<3>(std::move(t))), T &&> && std::is_same_v<decltype(pigro::get<3>(std::move(c))), const T &&>);
    CHECK("references alias", &pigro::get<0>(t) == &x && &pigro::get<2>(t) == &y && &pigro::get<0>(u) == &x && &pigro::get<2>(u) == &y);
    CHECK("through const", &pigro::get<0>(c) == &x && &pigro::get<2>(c) == &y && &pigro::get<3>(c) == &pigro::get<3>(t));
    CHECK("values do not", &pigro::get<3>(t) != &x && &pigro::get<3>(u) != &pigro::get<3>(t));
    x = sample<T>(l);
    CHECK("followed, and not followed", pigro::get<0>(u) == sample<T>(l) && pigro::get<3>(t) == sample<T>(k) && pigro::get<3>(u) == sample<T>(k));
    pigro::get<0>(u) = sample<T>(k);
    pigro::get<3>(u) = sample<T>(l);
    CHECK("written", x == sample<T>(k) && pigro::get<3>(u) == sample<T>(l) && pigro::get<3>(t) == sample<T>(k) && y == sample<T>(l));
    auto &&r = pigro::get<3>(std::move(t));
    CHECK("not moved by itself", &r == &pigro::get<3>(t) && r == sample<T>(k));
    T m = pigro::get<3>(std::move(t));
    CHECK("moved out", m == sample<T>(k) && pigro::get<1>(t) == 3);
    T n = pigro::get<0>(std::move(t));
    CHECK("but not of a reference", n == sample<T>(k) && x == sample<T>(k));
};
