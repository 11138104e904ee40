// BOUNDS: tuples of up to 6 elements of 12 types, stateless ones in all positions; all values of the elements; up to 4 writes in any order
#include "common/tuple_common.h"

HARNESS(ints) {
    int a = vf_nondet_i32(), b = vf_nondet_i32(), c = vf_nondet_i32();
    auto t = compressed_tuple{ a, b, c };
    CHECK("element 0", pigro::get<0>(t) == a);
    CHECK("element 1", pigro::get<1>(t) == b);
    CHECK("element 2", pigro::get<2>(t) == c);
    int m[3] = { a, b, c };
    for (int i = 0; i < HIST(4); ++i) { // any sequence of writes
        int v = vf_nondet_i32();
        unsigned k = vf_pick(3);
        (k == 0 ? pigro::get<0>(t) : k == 1 ? pigro::get<1>(t) : pigro::get<2>(t)) = v;
        m[k] = v;
        CHECK("only the assigned element changes", pigro::get<0>(t) == m[0] && pigro::get<1>(t) == m[1] && pigro::get<2>(t) == m[2]);
    }
    CHECK("the originals do not", a == a && pigro::get<0>(compressed_tuple{ a, b, c }) == a);
    COVER("end");
}

HARNESS(many) {
    bool a = vf_nondet_bool();
    char b = vf_nondet_i8();
    short c = vf_nondet_i16();
    int d = vf_nondet_i32();
    long e = vf_nondet_i64();
    Point f{ vf_nondet_i32(), vf_nondet_i32() };
    auto t = compressed_tuple{ a, b, c, d, e, f };
    auto ok = [&] { return pigro::get<0>(t) == a && pigro::get<1>(t) == b && pigro::get<2>(t) == c && pigro::get<3>(t) == d && pigro::get<4>(t) == e && pigro::get<5>(t) == f; };
    CHECK("all of the elements", ok());
    for (int i = 0; i < HIST(3); ++i) {
        switch (vf_pick(6)) {
        case 0: pigro::get<0>(t) = a = vf_nondet_bool(); break;
        case 1: pigro::get<1>(t) = b = vf_nondet_i8(); break;
        case 2: pigro::get<2>(t) = c = vf_nondet_i16(); break;
        case 3: pigro::get<3>(t) = d = vf_nondet_i32(); break;
        case 4: pigro::get<4>(t) = e = vf_nondet_i64(); break;
        default: pigro::get<5>(t) = f = Point{ vf_nondet_i32(), vf_nondet_i32() };
        }
        CHECK("only the assigned element changes", ok());
    }
    const auto &k = t;
    CHECK("the same elements through const", pigro::get<0>(k) == a && pigro::get<3>(k) == d && pigro::get<5>(k) == f);
    COVER("end");
}

// stateless elements in every position
template<typename T>
static int state(const T &) {
    if constexpr (std::is_empty_v<T>) return 0;
    else return sizeof(T);
}
HARNESS(stateless) {
    int a = vf_nondet_i32(), b = vf_nondet_i32();
    auto f = [](int x) { return vf_uf(1, x); };
    auto t0 = compressed_tuple{ Empty{}, a, b };
    auto t1 = compressed_tuple{ a, Empty{}, b };
    auto t2 = compressed_tuple{ a, b, Empty{} };
    auto t3 = compressed_tuple{ Empty{}, a, Empty{}, f, Empty2{}, b };
    CHECK("stateless first", pigro::get<0>(t0) == Empty{} && pigro::get<1>(t0) == a && pigro::get<2>(t0) == b);
    CHECK("stateless in between", pigro::get<0>(t1) == a && pigro::get<1>(t1) == Empty{} && pigro::get<2>(t1) == b);
    CHECK("stateless last", pigro::get<0>(t2) == a && pigro::get<1>(t2) == b && pigro::get<2>(t2) == Empty{});
    CHECK("stateless everywhere", pigro::get<1>(t3) == a && pigro::get<5>(t3) == b);
    CHECK("stateless functions can be called", pigro::get<3>(t3)(a) == vf_uf(1, a));
    pigro::get<1>(t3) = b;
    pigro::get<5>(t3) = a;
    CHECK("elements next to stateless ones can be assigned", pigro::get<1>(t3) == b && pigro::get<5>(t3) == a);
    CHECK("stateless elements take no space", sizeof(t0) == 2 * sizeof(int) && sizeof(t1) == 2 * sizeof(int) && sizeof(t2) == 2 * sizeof(int) && sizeof(t3) == 2 * sizeof(int));
    auto t4 = compressed_tuple{ Empty{}, f, Empty2{}, Empty{} };
    CHECK("only stateless elements", sizeof(t4) == 1 && std::is_empty_v<decltype(t4)> && pigro::get<1>(t4)(b) == vf_uf(1, b));
    const auto t5 = t3;
    CHECK("a copy, stateless elements included", pigro::get<1>(t5) == b && pigro::get<5>(t5) == a && pigro::get<3>(t5)(a) == vf_uf(1, a) && pigro::get<0>(t5) == Empty{});
}

HARNESS(sizes) {
    CHECK("no elements", sizeof(compressed_tuple<>) == 1);
    CHECK("one element", sizeof(compressed_tuple<int>) == sizeof(int) && sizeof(compressed_tuple<char>) == 1 && sizeof(compressed_tuple<Point>) == sizeof(Point));
    CHECK("more elements", sizeof(compressed_tuple<int, int>) == 2 * sizeof(int) && sizeof(compressed_tuple<char, char, char>) == 3);
    CHECK("number of elements", std::tuple_size_v<compressed_tuple<>> == 0 && std::tuple_size_v<compressed_tuple<int, Empty, char>> == 3);
    CHECK("element types", std::is_same_v<std::tuple_element_t<1, compressed_tuple<int, char>>, char> && std::is_same_v<std::tuple_element_t<0, compressed_tuple<int &, char>>, int &>);
}

// structured bindings
HARNESS(bindings) {
    int a = vf_nondet_i32(), b = vf_nondet_i32(), c = vf_nondet_i32();
    auto t = compressed_tuple{ a, 'c', b };
    auto [x, y, z] = t;
    CHECK("copies of the elements", x == a && y == 'c' && z == b);
    x = c;
    CHECK("the tuple does not change", pigro::get<0>(t) == a);
    auto &[p, q, r] = t;
    r = c;
    CHECK("the elements themselves", p == a && pigro::get<2>(t) == c && &pigro::get<0>(t) == &p);
    const auto &[k, l, m] = t;
    CHECK("constant", k == a && m == c && z == b);
}
