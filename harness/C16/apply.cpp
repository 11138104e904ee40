// BOUNDS: pigro::apply on compressed_tuple, std::tuple, std::pair and std::array of 0 to 6 elements; all values; values, references, stateless and move-only elements
#include "common/tuple_common.h"

#include "pigro/apply.h"
#include "pigro/overload.h"

static constexpr auto all = [](auto... a) { return vf_uf(1, a...); };
#define ANY vf_nondet_i32()

HARNESS(order) {
    int a = ANY, b = ANY, c = ANY, d = ANY, e = ANY, f = ANY;
    CHECK("0", pigro::apply(all, compressed_tuple{}) == vf_uf(1));
    CHECK("1", pigro::apply(all, compressed_tuple{ a }) == vf_uf(1, a));
    CHECK("2", pigro::apply(all, compressed_tuple{ a, b }) == vf_uf(1, a, b));
    CHECK("3", pigro::apply(all, compressed_tuple{ a, b, c }) == vf_uf(1, a, b, c));
    CHECK("4", pigro::apply(all, compressed_tuple{ a, b, c, d }) == vf_uf(1, a, b, c, d));
    CHECK("6", pigro::apply(all, compressed_tuple{ a, b, c, d, e, f }) == vf_uf(1, a, b, c, d, e, f));
    CHECK("std::tuple 0", pigro::apply(all, std::tuple{}) == vf_uf(1));
    CHECK("std::tuple 1", pigro::apply(all, std::tuple{ a }) == vf_uf(1, a));
    CHECK("std::tuple 3", pigro::apply(all, std::tuple{ a, b, c }) == vf_uf(1, a, b, c));
    CHECK("std::pair", pigro::apply(all, std::pair{ a, b }) == vf_uf(1, a, b));
    CHECK("std::array", pigro::apply(all, std::array{ a, b, c, d }) == vf_uf(1, a, b, c, d));
    const auto t = compressed_tuple{ a, b, c };
    CHECK("constant", pigro::apply(all, t) == vf_uf(1, a, b, c));
}

HARNESS(references) {
    int a = ANY, b = ANY, v = ANY, w = ANY;
    auto t = compressed_tuple{ a, b };
    auto swap = [](int &x, int &y) { std::swap(x, y); };
    pigro::apply(swap, t);
    CHECK("elements are passed by reference", pigro::get<0>(t) == b && pigro::get<1>(t) == a);
    auto s = std::tuple{ a, b };
    pigro::apply(swap, s);
    CHECK("elements of std::tuple are passed by reference", std::get<0>(s) == b && std::get<1>(s) == a);
    auto r = compressed_tuple<int &, int &>{ v, w };
    const int v0 = v, w0 = w;
    pigro::apply(swap, r);
    CHECK("references", v == w0 && w == v0);
    auto &x = pigro::apply([](int &p, int &) -> int & { return p; }, t);
    CHECK("result by reference", &x == &pigro::get<0>(t));
    int n = 0;
    pigro::apply([&](int p, int q) { n = vf_uf(1, p, q); }, t);
    CHECK("no result", n == vf_uf(1, b, a));
}

HARNESS(categories) {
    auto kind = [](auto &&p, auto &&q) {
        return (std::is_lvalue_reference_v<decltype(p)> ? 1 : 2) * 10 + (std::is_const_v<std::remove_reference_t<decltype(q)>> ? 1 : 0);
    };
    auto t = compressed_tuple{ 1, 'c' };
    const auto k = t;
    CHECK("lvalue", pigro::apply(kind, t) == 10);
    CHECK("constant lvalue", pigro::apply(kind, k) == 11);
    CHECK("temporary", pigro::apply(kind, std::move(t)) == 20);
    CHECK("constant temporary", pigro::apply(kind, std::move(k)) == 21);
    auto s = std::tuple{ 1, 'c' };
    CHECK("std::tuple", pigro::apply(kind, s) == 10 && pigro::apply(kind, std::move(s)) == 20);
}

HARNESS(move_only) {
    int a = ANY, b = ANY;
    {
        auto f = [](std::unique_ptr<int> p, int v, std::unique_ptr<int> q) { return vf_uf(1, *p, v, *q); };
        CHECK("moved from a temporary", pigro::apply(f, compressed_tuple{ std::make_unique<int>(a), 3, std::make_unique<int>(b) }) == vf_uf(1, a, 3, b));
        CHECK("moved from a temporary std::tuple", pigro::apply(f, std::tuple{ std::make_unique<int>(a), 3, std::make_unique<int>(b) }) == vf_uf(1, a, 3, b));
        auto t = compressed_tuple{ std::make_unique<int>(a), 1 };
        CHECK("not moved from a named tuple", pigro::apply([](auto &p, int) { return *p; }, t) == a && *pigro::get<0>(t) == a);
    }
    CHECK("released", vf_live_heap() == 0);
}

struct Counter {
    int n;
    int operator()(int x, Empty) & { return n = vf_uf(1, n, x); }
    int operator()(int x, Empty) && { return -1; }
};
struct Obj {
    int v;
    int get(int x) const { return vf_uf(1, v, x); }
};
HARNESS(callables) {
    int a = ANY, s = ANY, calls = 0;
    Counter c{ s };
    auto t = compressed_tuple{ a, Empty{} };
    CHECK("the callable itself is called, once", pigro::apply(c, t) == vf_uf(1, s, a) && c.n == vf_uf(1, s, a));
    CHECK("and again", pigro::apply(c, t) == vf_uf(1, vf_uf(1, s, a), a));
    CHECK("callables that are temporaries", pigro::apply(Counter{ s }, t) == -1);
    pigro::apply([&](int, Empty) { ++calls; }, t);
    CHECK("called once", calls == 1);
    CHECK("member functions", pigro::apply(&Obj::get, compressed_tuple{ Obj{ s }, a }) == vf_uf(1, s, a));
    CHECK("members", pigro::apply(&Obj::v, compressed_tuple{ Obj{ s } }) == s);
}

HARNESS(types) {
    char c = vf_nondet_i8();
    long l = vf_nondet_i64();
    bool b = vf_nondet_bool();
    Point p{ ANY, ANY };
    auto body = [&](auto q, auto e, auto r, auto s, auto t) {
        static_assert(std::is_same_v<decltype(q), char> && std::is_same_v<decltype(r), long> && std::is_same_v<decltype(s), bool> && std::is_same_v<decltype(t), Point>);
        return q == c && r == l && s == b && t == p;
    };
    CHECK("different types, and a stateless one", pigro::apply(body, compressed_tuple{ c, Empty{}, l, b, p }));
    CHECK("different types, and a stateless one, in a std::tuple", pigro::apply(body, std::tuple{ c, Empty{}, l, b, p }));
    auto g = pigro::overload{
        [](auto t) -> decltype(pigro::apply([](std::nullptr_t) { return 1; }, t)) { return pigro::apply([](std::nullptr_t) { return 1; }, t); },
        [](...) { return 2; },
    };
    CHECK("only what can be called", g(compressed_tuple{ nullptr }) == 1);
}
