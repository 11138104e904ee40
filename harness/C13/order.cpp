// BOUNDS: 0 to 4 bound and 0 to 3 passed arguments, of the same and of different types, stateless ones included, bound as compressed_tuple and std::tuple; all values; 2 calls
#include "common/bind_common.h"

static constexpr auto all = [](auto... a) { return vf_uf(1, a...); };
#define ANY vf_nondet_i32()

HARNESS(front) {
    int a = ANY, b = ANY, c = ANY, x = ANY, y = ANY;
    auto f0 = compressed_tuple{} >> all;
    auto f1 = compressed_tuple{ a } >> all;
    auto f2 = compressed_tuple{ a, b } >> all;
    auto f3 = compressed_tuple{ a, b, c } >> all;
    for (int i = 0; i < HIST(2); ++i) {
        CHECK("front 0", f0() == vf_uf(1) && f0(x) == vf_uf(1, x) && f0(x, y) == vf_uf(1, x, y));
        CHECK("front 1", f1() == vf_uf(1, a) && f1(x) == vf_uf(1, a, x) && f1(x, y) == vf_uf(1, a, x, y));
        CHECK("front 2", f2() == vf_uf(1, a, b) && f2(x) == vf_uf(1, a, b, x) && f2(x, y) == vf_uf(1, a, b, x, y));
        CHECK("front 3", f3() == vf_uf(1, a, b, c) && f3(x) == vf_uf(1, a, b, c, x) && f3(x, y, a) == vf_uf(1, a, b, c, x, y, a));
        x = ANY, y = ANY;
    }
}

HARNESS(back) {
    int a = ANY, b = ANY, c = ANY, x = ANY, y = ANY;
    auto f0 = compressed_tuple{} << all;
    auto f1 = compressed_tuple{ a } << all;
    auto f2 = compressed_tuple{ a, b } << all;
    auto f3 = compressed_tuple{ a, b, c } << all;
    for (int i = 0; i < HIST(2); ++i) {
        CHECK("back 0", f0() == vf_uf(1) && f0(x) == vf_uf(1, x) && f0(x, y) == vf_uf(1, x, y));
        CHECK("back 1", f1() == vf_uf(1, a) && f1(x) == vf_uf(1, x, a) && f1(x, y) == vf_uf(1, x, y, a));
        CHECK("back 2", f2() == vf_uf(1, a, b) && f2(x) == vf_uf(1, x, a, b) && f2(x, y) == vf_uf(1, x, y, a, b));
        CHECK("back 3", f3() == vf_uf(1, a, b, c) && f3(x) == vf_uf(1, x, a, b, c) && f3(x, y, a) == vf_uf(1, x, y, a, a, b, c));
        x = ANY, y = ANY;
    }
}

HARNESS(std_tuple) {
    int a = ANY, b = ANY, x = ANY;
    auto f = std::tuple{ a, b } >> all;
    auto g = std::tuple{ a, b } << all;
    auto p = std::pair{ a, b } >> all;
    auto q = std::array{ a, b, a } << all;
    for (int i = 0; i < HIST(2); ++i) {
        CHECK("std::tuple front", f() == vf_uf(1, a, b) && f(x) == vf_uf(1, a, b, x));
        CHECK("std::tuple back", g() == vf_uf(1, a, b) && g(x) == vf_uf(1, x, a, b));
        CHECK("std::pair front", p(x) == vf_uf(1, a, b, x));
        CHECK("std::array back", q(x) == vf_uf(1, x, a, b, a));
        x = ANY;
    }
}

// different types end up where they belong
HARNESS(types) {
    char c = vf_nondet_i8();
    long l = vf_nondet_i64();
    bool b = vf_nondet_bool();
    Point p{ ANY, ANY };
    auto body = [&](auto q, auto r, auto s, auto t) {
        static_assert(std::is_same_v<decltype(q), char> && std::is_same_v<decltype(r), long> && std::is_same_v<decltype(s), bool> && std::is_same_v<decltype(t), Point>);
        return q == c && r == l && s == b && t == p;
    };
    auto f = compressed_tuple{ c, l } >> body;
    CHECK("front", f(b, p));
    auto g = compressed_tuple{ b, p } << body;
    CHECK("back", g(c, l));
    auto h = compressed_tuple{ c, l, b, p } >> body;
    CHECK("all of them", h());
}

HARNESS(stateless) {
    int a = ANY, x = ANY;
    auto twice = [](int v) { return vf_uf(2, v); };
    auto f = compressed_tuple{ Empty{}, twice, a } >> [](Empty, auto t, int v, int w) { return vf_uf(1, t(v), w); };
    auto g = compressed_tuple{ twice, a, Empty{} } << [](int w, auto t, int v, Empty) { return vf_uf(1, t(v), w); };
    CHECK("stateless arguments, front", f(x) == vf_uf(1, vf_uf(2, a), x));
    CHECK("stateless arguments, back", g(x) == vf_uf(1, vf_uf(2, a), x));
    auto h = compressed_tuple{ twice } >> [](auto t, int v) { return t(v); };
    CHECK("only stateless arguments", h(x) == vf_uf(2, x) && std::is_empty_v<decltype(h)>);
    auto k = compressed_tuple{ twice, Empty{} } << [](int v, auto t, Empty) { return t(v); };
    CHECK("only stateless arguments, back", k(x) == vf_uf(2, x) && sizeof(k) == 1);
    CHECK("only the state takes space", sizeof(f) == sizeof(int) && sizeof(g) == sizeof(int));
}
