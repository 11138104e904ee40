// BOUNDS: bound and passed arguments, state and results of 40 types; all values of 8 bits
#include "common/bind_common.h"
#include "common/sweep.h"

using pigro::bind_back;
static constexpr auto check = []<typename T>(Each<T>) {
    const unsigned char k = any_key<T>(), l = any_key<T>(), p = any_key<T>();
    T x = sample<T>(p), b = sample<T>(l);
    const T c = sample<T>(l);
    auto body = [&](const T &a, const T &b, const T &c) { return a == sample<T>(k) && b == sample<T>(l) && c == sample<T>(p); };
    auto f = bind_back(body, sample<T>(l), sample<T>(p));
    CHECK("temporaries", f(sample<T>(k)) && f(sample<T>(k)));
    auto g = bind_back(body, b, std::as_const(x));
    CHECK("named", g(sample<T>(k)) && g(sample<T>(k)));
    auto h = bind_back(body, c, x);
    CHECK("constants", h(sample<T>(k)));
    auto i = bind_back([](T &v, T &w) { T r = w; w = v; return r; }, sample<T>(k));
    auto j = bind_back([](T &v, T &w) { T r = w; w = v; return r; }, b);
    CHECK("state", i(x) == sample<T>(k) && i(b) == sample<T>(p));
    auto ic = i;
    CHECK("of a copy", ic(x) == sample<T>(l) && i(x) == sample<T>(l) && ic(b) == sample<T>(p));
    CHECK("state of a named one", j(x) == sample<T>(l) && b == sample<T>(p));
    b = sample<T>(k);
    auto jc = j;
    CHECK("in both directions", jc(x) == sample<T>(k) && b == sample<T>(p));
    auto r = bind_back([](T &v, int) -> T & { return v; }, 1);
    CHECK("the argument and the result themselves", &r(x) == &x);
    auto m = bind_back([](T &&v, int) { return std::move(v); }, 1);
    const T y = m(std::move(x));
    CHECK("moved", y == sample<T>(p));
    auto s = bind_back([n = sample<T>(k)](const T &v, int) mutable { T r = n; n = v; return r; }, 1);
    CHECK("state of the callable", s(c) == sample<T>(k) && s(y) == sample<T>(l) && s(y) == sample<T>(p));
};
