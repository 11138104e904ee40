// BOUNDS: enumerate_pack with packs of 0 to 6 elements of mixed types and value categories, enumerate_n for 0 to 8; all values
#include "common/tuple_common.h"

#include "pigro/pack_algorithms.h"

using pigro::enumerate_n;
using pigro::enumerate_pack;
#define ANY vf_nondet_i32()

HARNESS(order) {
    int a = ANY, b = ANY, c = ANY, d = ANY;
    auto values = [](auto &&...i) { return vf_uf(1, i.value...); };
    auto indices = [](auto &&...i) { return vf_uf(2, int(i.index)...); };
    CHECK("no values", enumerate_pack(values) == vf_uf(1));
    CHECK("1 value", enumerate_pack(values, a) == vf_uf(1, a));
    CHECK("2 values", enumerate_pack(values, a, b) == vf_uf(1, a, b));
    CHECK("3 values", enumerate_pack(values, a, b, c) == vf_uf(1, a, b, c));
    CHECK("6 values", enumerate_pack(values, a, b, c, d, a, c) == vf_uf(1, a, b, c, d, a, c));
    CHECK("temporaries", enumerate_pack(values, int(a), b, int(c)) == vf_uf(1, a, b, c));
    CHECK("their indices", enumerate_pack(indices, a, b, c, d) == vf_uf(2, 0, 1, 2, 3) && enumerate_pack(indices, a) == vf_uf(2, 0) && enumerate_pack(indices, a, b, c, d, a, b) == vf_uf(2, 0, 1, 2, 3, 4, 5));
    int sum = enumerate_pack([](auto &&...i) { return ((unsigned(i.value) * (i.index + 1)) + ... + 0u); }, a, b, c);
    CHECK("each value with its own index", unsigned(sum) == unsigned(a) + 2u * unsigned(b) + 3u * unsigned(c));
}

HARNESS(references) {
    int a = ANY, b = ANY, v = ANY;
    const int k = ANY;
    enumerate_pack([&](auto &&x, auto &&y, auto &&z) {
        CHECK("named values are referred to", &x.value == &a && &y.value == &b && &z.value == &k);
        x.value = v;
        y.value = int(y.index);
    },
      a,
      b,
      k);
    CHECK("assigned", a == v && b == 1);
    auto &r = *enumerate_pack([](auto &&x) { return &x.value; }, a);
    CHECK("result", &r == &a);
}

HARNESS(moves) {
    int a = ANY, b = ANY;
    {
        auto p = std::make_unique<int>(a), q = std::make_unique<int>(b);
        auto r = enumerate_pack([](auto &&x, auto &&y) { return std::forward<decltype(x.value)>(x.value); }, std::move(p), q);
        CHECK("moved", !p && *r == a);
        CHECK("not moved", q && *q == b);
        enumerate_pack([](auto &&x) {}, std::move(q));
        CHECK("not moved unless asked for", q && *q == b);
        CHECK("temporary", enumerate_pack([](auto &&x) { return *x.value; }, std::make_unique<int>(a)) == a);
    }
    CHECK("released", vf_live_heap() == 0);
    Tracked::reset();
    {
        Tracked t{ a };
        enumerate_pack([](auto &&x, auto &&y) { return x.value.v; }, t, Tracked{ b });
        CHECK("no copies", Tracked::copies == 0 && t.valid);
    }
    CHECK("every object is destroyed", Tracked::alive == 0);
}

HARNESS(mixed) {
    char c = vf_nondet_i8();
    long l = vf_nondet_i64();
    Point p{ ANY, ANY };
    CHECK("different types", enumerate_pack([&](auto &&x, auto &&y, auto &&z, auto &&e) {
        return x.value == c && y.value == l && z.value == p && e.index == 3;
    }, c, l, Point(p), Empty{}));
    int a = ANY, b = ANY;
    CHECK("a single tuple remains a tuple", enumerate_pack([](auto &&...i) { return (i.value, ...); }, std::tuple{ a, b }) == std::tuple{ a, b });
    auto t = std::pair{ a, b };
    CHECK("a single pair remains a pair", &enumerate_pack([](auto &&i) -> auto * { return &i.value; }, t)->first == &t.first);
    int calls = 0;
    enumerate_pack([&](auto &&...) { ++calls; }, a, b);
    CHECK("called once", calls == 1);
    auto f = [n = a](auto &&...i) mutable { return n = vf_uf(1, n, i.value...); };
    CHECK("the callable keeps its state", enumerate_pack(f, b) == vf_uf(1, a, b) && enumerate_pack(f, b) == vf_uf(1, vf_uf(1, a, b), b));
}

HARNESS(n) {
    auto hash = [](auto &&...i) { unsigned h = 7; ((h = h * 31 + unsigned(i.index) * 5 + unsigned(i.value)), ...); return h; };
    auto expected = [](unsigned n) { unsigned h = 7; for (unsigned i = 0; i < n; ++i) h = h * 31 + i * 6; return h; };
    CHECK("n = 0", enumerate_n<0>(hash) == expected(0));
    CHECK("n = 1", enumerate_n<1>(hash) == expected(1));
    CHECK("n = 2", enumerate_n<2>(hash) == expected(2));
    CHECK("n = 3", enumerate_n<3>(hash) == expected(3));
    CHECK("n = 5", enumerate_n<5>(hash) == expected(5));
    CHECK("n = 8", enumerate_n<8>(hash) == expected(8));
    int s = ANY, calls = 0;
    enumerate_n<4>([&](auto &&...i) { ++calls; s = vf_uf(1, s, int(i.value)...); });
    CHECK("called once", calls == 1);
}
