// BOUNDS: to_tuple of compressed_tuple, std::tuple and std::pair of 0 to 5 elements; uncaptured with 1 to 4 values; all values
#include "common/tuple_common.h"

#include <functional>

#include "pigro/to_tuple.h"

using pigro::to_tuple;
#define ANY vf_nondet_i32()

HARNESS(elements) {
    int a = ANY, b = ANY;
    char c = vf_nondet_i8();
    long l = vf_nondet_i64();
    auto t = compressed_tuple{ a, c, l, b };
    auto r = to_tuple(t);
    static_assert(std::tuple_size_v<decltype(r)> == 4);
    CHECK("all of the elements, in order", std::get<0>(r) == a && std::get<1>(r) == c && std::get<2>(r) == l && std::get<3>(r) == b);
    CHECK("the elements themselves", &std::get<0>(r) == &pigro::get<0>(t) && &std::get<3>(r) == &pigro::get<3>(t));
    std::get<3>(r) = a = ANY;
    CHECK("assigned through", pigro::get<3>(t) == a);
    CHECK("no elements", to_tuple(compressed_tuple{}) == std::tuple{});
    auto s = std::tuple{ b, c };
    auto u = to_tuple(s);
    CHECK("std::tuple", &std::get<0>(u) == &std::get<0>(s) && &std::get<1>(u) == &std::get<1>(s));
    auto p = std::pair{ b, l };
    auto v = to_tuple(p);
    CHECK("std::pair", &std::get<0>(v) == &p.first && &std::get<1>(v) == &p.second);
}

HARNESS(categories) {
    int x = ANY;
    auto t = compressed_tuple{ x };
    const auto &k = t;
    static_assert(std::is_same_v<decltype(to_tuple(t)), std::tuple<int &>>);
    static_assert(std::is_same_v<decltype(to_tuple(k)), std::tuple<const int &>>);
    static_assert(std::is_same_v<decltype(to_tuple(std::move(t))), std::tuple<int &&>>);
    CHECK("constant", &std::get<0>(to_tuple(k)) == &pigro::get<0>(t));
    auto r = compressed_tuple<int &>{ x };
    CHECK("reference elements", &std::get<0>(to_tuple(r)) == &x);
    auto m = compressed_tuple{ std::make_unique<int>(x), 1 };
    std::unique_ptr<int> p = std::get<0>(to_tuple(std::move(m)));
    CHECK("moved out", *p == x && !pigro::get<0>(m));
    Tracked::reset();
    {
        auto w = compressed_tuple{ Tracked{ x } };
        const int copies = Tracked::copies, moves = Tracked::moves;
        to_tuple(w);
        to_tuple(std::move(w));
        CHECK("nothing is copied or moved", Tracked::copies == copies && Tracked::moves == moves && pigro::get<0>(w).valid);
    }
    CHECK("destroyed", Tracked::alive == 0);
}
