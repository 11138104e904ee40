// BOUNDS: recursive functions with state, arguments and results of 40 types; recursion of depth 3; all values of 8 bits
#include "common/tuple_common.h"
#include "common/sweep.h"

#include <functional>

#include "pigro/recursive.h"

using pigro::recursive;
static constexpr auto check = []<typename T>(Each<T>) {
    const unsigned char k = any_key<T>(), l = any_key<T>();
    auto f = recursive{ [n = sample<T>(k)](auto &self, int depth, const T &v) mutable -> T {
        if (depth) return self(depth - 1, v);
        T r = n;
        n = v;
        return r;
    } };
    T x = sample<T>(l);
    CHECK("state, at first", f(0, x) == sample<T>(k));
    auto c = f;
    CHECK("state, in the depth", f(3, sample<T>(k)) == sample<T>(l) && f(1, x) == sample<T>(k));
    CHECK("state of a copy", c(2, x) == sample<T>(l));
    auto g = recursive{ [](auto &&self, T &v, int depth) -> T & { return depth ? self(v, depth - 1) : v; } };
    CHECK("the argument and the result themselves", &g(x, 0) == &x && &g(x, 3) == &x && &std::as_const(g)(x, 2) == &x);
    auto h = recursive{ [](auto &&self, T v, int depth) -> T { return depth ? self(std::move(v), depth - 1) : v; } };
    CHECK("passed on by value", h(x, 3) == sample<T>(l) && x == sample<T>(l));
    CHECK("moved", h(std::move(x), 3) == sample<T>(l));
    auto e = recursive{ [n = sample<T>(k)](auto &&self, int depth) -> const T & { return depth ? self(depth - 1) : n; } };
    CHECK("the same state", &e(0) == &e(3) && e(2) == sample<T>(k) && &std::as_const(e)(2) == &e(0));
};
