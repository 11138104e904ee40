// BOUNDS: functions with arguments, state and results of 40 types; original and copy; all values of 8 bits
#include "common/tuple_common.h"
#include "common/sweep.h"

#include <functional>
#include <optional>

#include "pigro/regular_void.h"

using pigro::regular_void;
using pigro::regularized_void;
using pigro::unregularized_void;
static constexpr auto check = []<typename T>(Each<T>) {
    const unsigned char k = any_key<T>(), l = any_key<T>();
    int calls = 0;
    T last = sample<T>(0);
    const T x = sample<T>(l);
    auto f = regularized_void([&](const T &v, int) { ++calls; last = v; });
    static_assert(std::is_same_v<decltype(f(x, 1)), regular_void>);
    f(sample<T>(k), 1);
    CHECK("called once, with its argument", calls == 1 && last == sample<T>(k));
    auto g = regularized_void([&](T v) { ++calls; return v; });
    static_assert(std::is_same_v<decltype(g(x)), T>);
    CHECK("its result", g(x) == x && calls == 2);
    auto h = unregularized_void([&](T v, T w) { ++calls; last = v == sample<T>(k) ? w : v; return regular_void{}; });
    static_assert(std::is_void_v<decltype(h(x, x))>);
    h(sample<T>(k), x);
    CHECK("both arguments", last == x && calls == 3);
    auto i = unregularized_void([&](T v) { ++calls; return v; });
    CHECK("its result, the other way around", i(x) == x && calls == 4);
    auto s = regularized_void([n = sample<T>(k)](const T &v) mutable { T r = n; n = v; return r; });
    auto u = unregularized_void([n = sample<T>(k)](const T &v) mutable { T r = n; n = v; return r; });
    CHECK("state", s(x) == sample<T>(k) && u(x) == sample<T>(k));
    auto sc = s;
    auto uc = u;
    CHECK("state is kept", s(sample<T>(k)) == x && u(sample<T>(k)) == x && s(x) == sample<T>(k) && u(x) == sample<T>(k));
    CHECK("also by a copy", sc(x) == x && uc(x) == x);
    auto w = unregularized_void(regularized_void([n = sample<T>(k), &last](const T &v) mutable { last = n; n = v; }));
    w(x);
    CHECK("there and back", last == sample<T>(k));
    w(x);
    CHECK("there and back, once more", last == x);
};
