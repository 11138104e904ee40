// BOUNDS: reference elements (lvalue, const), in tuples of 1 to 4 elements; 4 writes through the tuple, a copy of it, or to the variables themselves
#include "common/tuple_common.h"

HARNESS(alias) {
    int x = vf_nondet_i32(), y = vf_nondet_i32();
    auto t = compressed_tuple<int &, int, int &>{ x, y, y };
    int mx = x, my = y, m1 = y;
    auto u = t;
    for (int i = 0; i < HIST(4); ++i) {
        int v = vf_nondet_i32();
        switch (vf_pick(6)) {
        case 0: pigro::get<0>(t) = mx = v; break;
        case 1: pigro::get<1>(t) = m1 = v; break;
        case 2: pigro::get<2>(t) = my = v; break;
        case 3: x = mx = v; break;
        case 4: y = my = v; break;
        default: pigro::get<0>(u) = mx = v; // copies refer to the same variable
        }
        CHECK("the variables", x == mx && y == my);
        CHECK("reference elements refer to the variables", pigro::get<0>(t) == mx && pigro::get<2>(t) == my);
        CHECK("value elements do not", pigro::get<1>(t) == m1);
    }
    CHECK("the very same object", &pigro::get<0>(t) == &x && &pigro::get<2>(t) == &y && &pigro::get<0>(u) == &x && &pigro::get<1>(t) != &y);
    COVER("end");
}

HARNESS(constness) {
    int x = vf_nondet_i32();
    const int k = vf_nondet_i32();
    auto t = compressed_tuple<const int &, int &>{ k, x };
    static_assert(std::is_same_v<decltype(pigro::get<0>(t)), const int &>);
    static_assert(std::is_same_v<decltype(pigro::get<1>(t)), int &>);
    CHECK("the same objects", &pigro::get<0>(t) == &k && &pigro::get<1>(t) == &x);
    const auto &c = t;
    x = vf_nondet_i32();
    CHECK("through const", pigro::get<0>(c) == k && pigro::get<1>(c) == x);
}

// value categories of elements
HARNESS(categories) {
    int a = vf_nondet_i32();
    auto t = compressed_tuple{ a, 5, 'c' };
    const auto &c = t;
    static_assert(std::is_same_v<decltype(pigro::get<0>(t)), int &>);
    static_assert(std::is_same_v<decltype(pigro::get<0>(c)), const int &>);
    static_assert(std::is_same_v<decltype(pigro::get<0>(std::move(t))), int &&>);
    static_assert(std::is_same_v<decltype(pigro::get<2>(std::move(c))), const char &&>);
    auto &&r = pigro::get<0>(std::move(t));
    CHECK("all of them are the same object", &pigro::get<0>(t) == &pigro::get<0>(c) && &r == &pigro::get<0>(t));
    CHECK("different elements are different objects", (void *)&pigro::get<0>(t) != (void *)&pigro::get<1>(t) && (void *)&pigro::get<1>(t) != (void *)&pigro::get<2>(t));
    CHECK("within the tuple", (char *)&pigro::get<0>(t) >= (char *)&t && (char *)&pigro::get<0>(t) < (char *)(&t + 1) && (char *)&pigro::get<2>(t) >= (char *)&t && (char *)&pigro::get<2>(t) < (char *)(&t + 1));
    r = vf_nondet_i32();
    CHECK("written through", pigro::get<0>(c) == r && pigro::get<1>(c) == 5 && pigro::get<2>(c) == 'c');
}

// elements that can only be moved
HARNESS(move_only) {
    int a = vf_nondet_i32(), b = vf_nondet_i32();
    {
        auto t = compressed_tuple{ std::make_unique<int>(a), 1, std::make_unique<int>(b) };
        CHECK("stored", *pigro::get<0>(t) == a && *pigro::get<2>(t) == b);
        auto u = std::move(t);
        CHECK("moved along with the tuple", *pigro::get<0>(u) == a && *pigro::get<2>(u) == b && !pigro::get<0>(t) && !pigro::get<2>(t));
        std::unique_ptr<int> p = pigro::get<0>(std::move(u));
        CHECK("moved out of the tuple", *p == a && !pigro::get<0>(u) && *pigro::get<2>(u) == b && pigro::get<1>(u) == 1);
    }
    CHECK("released once", vf_live_heap() == 0);
    COVER("end");
}

// access copies nothing
HARNESS(no_copies) {
    Tracked::reset();
    int a = vf_nondet_i32();
    auto t = compressed_tuple{ Tracked{ a }, 3 };
    const auto &c = t;
    const int copies = Tracked::copies, moves = Tracked::moves;
    auto &r = pigro::get<0>(t);
    auto &k = pigro::get<0>(c);
    r.v = vf_nondet_i32();
    CHECK("access refers to the element", k.v == r.v && &k == &r && r.valid);
    CHECK("access neither copies nor moves", Tracked::copies == copies && Tracked::moves == moves);
}
