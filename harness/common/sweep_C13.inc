// BOUNDS: bound and passed arguments and results of 40 types; all values of 8 bits
#include "common/bind_common.h"
#include "common/sweep.h"

static constexpr auto check = []<typename T>(Each<T>) {
    const unsigned char k = any_key<T>(), l = any_key<T>(), p = any_key<T>();
    T x = sample<T>(p);
    const T *passed = nullptr;
    int calls = 0;
    auto body = [&](const T &a, const T &b, const T &c) { ++calls; return a == sample<T>(k) && b == sample<T>(l) && c == sample<T>(p); };
    auto f = compressed_tuple{ sample<T>(k), sample<T>(l) } >> body;
    CHECK("bound first", f(x) && f(std::as_const(x)) && f(sample<T>(p)) && calls == 3);
    auto g = compressed_tuple{ sample<T>(l), sample<T>(p) } << body;
    CHECK("bound last", g(sample<T>(k)) && calls == 4);
    auto s = std::tuple<T>{ sample<T>(k) } >> body;
    CHECK("std::tuple", s(sample<T>(l), x) && calls == 5);
    auto h = compressed_tuple{ 1 } >> [&](int, T &v) -> T & { passed = &v; return v; };
    CHECK("the argument and the result themselves", &h(x) == &x && passed == &x);
    auto i = compressed_tuple{ 1 } << [&](T &&v, int) { passed = &v; return std::move(v); };
    const T r = i(std::move(x));
    CHECK("moved", passed == &x && r == sample<T>(p));
    auto j = compressed_tuple{ sample<T>(k) } >> [](T &v) -> T & { return v; };
    CHECK("the bound value itself", &j() == &j() && j() == sample<T>(k));
    auto v = compressed_tuple{ sample<T>(k) } << [](bool b, const T &v) { return b ? v : sample<T>(0); };
    CHECK("result", v(true) == sample<T>(k));
};
