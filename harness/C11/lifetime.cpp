// BOUNDS: copies and moves of tuples of 1 to 3 elements (values, structs, strings, tuples, counted objects), default construction and conversion; 3 writes to either copy
#include "common/tuple_common.h"

HARNESS(copies) {
    int a = vf_nondet_i32();
    Point p{ vf_nondet_i32(), vf_nondet_i32() };
    auto t = compressed_tuple{ a, p };
    auto u = t;
    int ta = a, ua = a;
    for (int i = 0; i < HIST(3); ++i) {
        int v = vf_nondet_i32();
        if (vf_nondet_bool()) pigro::get<0>(t) = ta = v;
        else pigro::get<0>(u) = ua = v;
        CHECK("copies are independent", pigro::get<0>(t) == ta && pigro::get<0>(u) == ua);
        CHECK("other elements are not affected", pigro::get<1>(t) == p && pigro::get<1>(u) == p);
    }
    auto w = std::move(u);
    CHECK("moved", pigro::get<0>(w) == ua && pigro::get<1>(w) == p);
    const auto c = t;
    auto d = c;
    CHECK("copied from const", pigro::get<0>(d) == ta && pigro::get<1>(d) == p);
}

HARNESS(single) { // must not be mistaken for a conversion
    int a = vf_nondet_i32();
    auto t = compressed_tuple{ a };
    auto u = t;
    const auto c = t;
    auto d = c;
    auto e = std::move(t);
    pigro::get<0>(u) = 0;
    CHECK("copies of a single element", pigro::get<0>(c) == a && pigro::get<0>(d) == a && pigro::get<0>(e) == a && pigro::get<0>(u) == 0);
    auto n = compressed_tuple{ std::tuple{ a, 5 } };
    CHECK("a tuple remains a single element", std::tuple_size_v<decltype(n)> == 1 && std::get<0>(pigro::get<0>(n)) == a && std::get<1>(pigro::get<0>(n)) == 5);
    auto m = compressed_tuple{ compressed_tuple{ a, 1 }, 2 };
    CHECK("nested", pigro::get<0>(pigro::get<0>(m)) == a && pigro::get<1>(pigro::get<0>(m)) == 1 && pigro::get<1>(m) == 2);
}

HARNESS(defaults) {
    auto t = compressed_tuple<int, bool, Point, Empty, int *>{};
    CHECK("zeros", pigro::get<0>(t) == 0 && pigro::get<1>(t) == false && pigro::get<2>(t) == Point{ 0, 0 } && pigro::get<4>(t) == nullptr);
    auto u = compressed_tuple<std::string, int>{};
    CHECK("empty string", pigro::get<0>(u).empty() && pigro::get<1>(u) == 0);
    CHECK("only if possible", !std::default_initializable<compressed_tuple<int &>> && std::default_initializable<compressed_tuple<>>);
}

HARNESS(conversions) {
    int a = vf_nondet_i32();
    char c = vf_nondet_i8();
    auto t = compressed_tuple<long, int, bool>{ a, c, a };
    CHECK("converted to the element type", pigro::get<0>(t) == a && pigro::get<1>(t) == c && pigro::get<2>(t) == (a != 0));
    auto s = compressed_tuple<std::string, int>{ "text", c };
    CHECK("converted to a string", pigro::get<0>(s) == "text" && pigro::get<1>(s) == c);
}

HARNESS(strings) {
    char c[3] = { char('a' + vf_choose(3)), 'b', 0 };
    {
        auto t = compressed_tuple{ std::string(c), 7, std::string(40, c[0]) };
        auto u = t;
        pigro::get<0>(t) += "x";
        pigro::get<2>(u)[39] = '!';
        CHECK("owned by the tuple", pigro::get<0>(t) == std::string(c) + "x" && pigro::get<0>(u) == c && pigro::get<1>(u) == 7);
        CHECK("owned by each copy", pigro::get<2>(t)[39] == c[0] && pigro::get<2>(u)[39] == '!');
        auto w = std::move(t);
        CHECK("moved", pigro::get<0>(w) == std::string(c) + "x" && pigro::get<2>(w).size() == 40);
    }
    CHECK("released", vf_live_heap() == 0);
}

HARNESS(tracked) {
    Tracked::reset();
    int a = vf_nondet_i32(), b = vf_nondet_i32();
    {
        Tracked x{ a };
        auto t = compressed_tuple{ x, Tracked{ b } };
        CHECK("elements are alive", pigro::get<0>(t).valid && pigro::get<0>(t).v == a && pigro::get<1>(t).valid && pigro::get<1>(t).v == b);
        CHECK("the original is untouched", x.valid && x.v == a);
        auto u = std::move(t);
        CHECK("moved elements are alive", pigro::get<0>(u).valid && pigro::get<0>(u).v == a && pigro::get<1>(u).valid && pigro::get<1>(u).v == b);
        auto w = u;
        CHECK("copying leaves the source intact", pigro::get<0>(u).valid && pigro::get<0>(w).valid && pigro::get<0>(w).v == a && pigro::get<1>(w).v == b);
    }
    CHECK("every element is destroyed once", Tracked::alive == 0);
}
