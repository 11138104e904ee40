// BOUNDS: elements and results of 40 types, in std::tuple, std::pair and std::array, and in several positions; all values of 8 bits
#include "common/tuple_common.h"
#include "common/sweep.h"

#include "pigro/tuple_algorithms.h"

using pigro::any;
using pigro::transform;
static constexpr auto check = []<typename T>(Each<T>) {
    const unsigned char k = any_key<T>(), l = any_key<T>();
    auto test = [&](const auto &t) {
        int calls = 0;
        const T *seen[4] = {};
        auto r = transform(t, [&](const T &x) { if (calls < 4) seen[calls] = &x; ++calls; return x; });
        static_assert(std::is_same_v<decltype(r), std::tuple<T, T>>);
        CHECK("once for each, and on the element itself", calls == 2 && ((seen[0] == &std::get<0>(t) && seen[1] == &std::get<1>(t)) || (seen[1] == &std::get<0>(t) && seen[0] == &std::get<1>(t))));
        CHECK("each of them", std::get<0>(r) == sample<T>(k) && std::get<1>(r) == sample<T>(l));
        calls = 0;
        CHECK("none", !any(t, [&](const T &x) { seen[calls++] = &x; return false; }) && calls == 2 && seen[0] == &std::get<0>(t) && seen[1] == &std::get<1>(t));
        calls = 0;
        CHECK("the first", any(t, [&](const T &x) { ++calls; return true; }) && calls == 1);
        calls = 0;
        CHECK("the second", any(t, [&](const T &x) { ++calls; return &x == &std::get<1>(t); }) && calls == 2);
        auto n = transform(t, [&](const T &x) { return x == sample<T>(k); });
        static_assert(std::is_same_v<decltype(n), std::tuple<bool, bool>>);
        CHECK("of another type", std::get<0>(n) && std::get<1>(n) == (sample<T>(k) == sample<T>(l)));
    };
    test(std::tuple{ sample<T>(k), sample<T>(l) });
    test(std::pair{ sample<T>(k), sample<T>(l) });
    test(std::array{ sample<T>(k), sample<T>(l) });
    const T x = sample<T>(k);
    const auto m = std::tuple<const T &, int, T>{ x, 4, sample<T>(l) };
    auto r = transform(m, [](const auto &v) -> const auto & { return v; });
    static_assert(std::is_same_v<decltype(r), std::tuple<T, int, T>>);
    CHECK("next to others", std::get<0>(r) == x && &std::get<0>(r) != &x && std::get<1>(r) == 4 && std::get<2>(r) == sample<T>(l));
};
