// BOUNDS: arguments passed by value, reference, as movable and move-only objects; results by value and reference; bound functions on top of each other, and in overload sets
#include "common/bind_common.h"

HARNESS(references) {
    int a = vf_nondet_i32(), x = vf_nondet_i32(), v = vf_nondet_i32();
    const int a0 = a, x0 = x;
    auto f = compressed_tuple{ a } >> [](int &bound, int &passed, int w) { passed = w; bound = w; };
    f(x, v);
    CHECK("passed by reference", x == v);
    CHECK("bound values are copies", a == a0);
    auto g = compressed_tuple{ a } << [](int &passed, int, int bound) { passed = bound; };
    g(x, 1);
    CHECK("passed by reference, back", x == a0);
    auto h = compressed_tuple<int &>{ a } >> [](int &bound, int w) { bound = w; };
    h(v);
    CHECK("bound reference", a == v);
    auto k = compressed_tuple<int &>{ a } << [](int w, int &bound) { bound = w; };
    k(x0);
    CHECK("bound reference, back", a == x0);
}

HARNESS(categories) {
    auto body = [](auto &&...p) {
        int r = 0;
        ((r = r * 4 + (std::is_lvalue_reference_v<decltype(p)> ? 1 : 2) + (std::is_const_v<std::remove_reference_t<decltype(p)>> ? 1 : 0)), ...);
        return r;
    };
    int x = 0;
    const int c = 0;
    auto f = compressed_tuple{} >> body;
    auto g = compressed_tuple{} << body;
    CHECK("lvalue, constant and temporary arguments", f(x, c, 1) == body(x, c, 1));
    CHECK("lvalue, constant and temporary arguments, back", g(x, c, 1) == body(x, c, 1));
}

HARNESS(move_only) {
    int a = vf_nondet_i32(), b = vf_nondet_i32();
    {
        auto f = compressed_tuple{ a } >> [](int v, std::unique_ptr<int> p) { return vf_uf(1, v, *p); };
        CHECK("move-only argument", f(std::make_unique<int>(b)) == vf_uf(1, a, b) && f(std::make_unique<int>(a)) == vf_uf(1, a, a));
        auto g = compressed_tuple{ a } << [](std::unique_ptr<int> p, int v) { return vf_uf(1, v, *p); };
        CHECK("move-only argument, back", g(std::make_unique<int>(b)) == vf_uf(1, a, b));
        auto h = compressed_tuple{ std::make_unique<int>(a) } >> [](const std::unique_ptr<int> &p, int v) { return vf_uf(1, *p, v); };
        CHECK("move-only bound argument", h(b) == vf_uf(1, a, b) && h(a) == vf_uf(1, a, a));
        auto k = compressed_tuple{ std::make_unique<int>(a) } << [](int v, const std::unique_ptr<int> &p) { return vf_uf(1, *p, v); };
        CHECK("move-only bound argument, back", k(b) == vf_uf(1, a, b) && k(a) == vf_uf(1, a, a));
    }
    CHECK("released", vf_live_heap() == 0);
}

HARNESS(results) {
    int a = vf_nondet_i32(), x = vf_nondet_i32();
    auto f = compressed_tuple<int &>{ a } >> [](int &r, int) -> int & { return r; };
    static_assert(std::is_same_v<decltype(f(0)), int &>);
    f(0) = x;
    CHECK("result by reference", a == x && &f(1) == &a);
    auto g = compressed_tuple{ 1 } << [](int &r, int) -> int & { return r; };
    CHECK("result by reference, back", &g(x) == &x);
    int n = 0;
    auto h = compressed_tuple{ 2 } >> [&](int k) { n += k; };
    h(), h();
    CHECK("no result", n == 4);
}

HARNESS(nested) {
    int a = vf_nondet_i32(), b = vf_nondet_i32(), c = vf_nondet_i32();
    auto all = [](auto... v) { return vf_uf(1, v...); };
    auto f = compressed_tuple{ a } >> (compressed_tuple{ b } >> all);
    CHECK("front of front", f(c) == vf_uf(1, b, a, c));
    auto g = compressed_tuple{ a } << (compressed_tuple{ b } << all);
    CHECK("back of back", g(c) == vf_uf(1, c, a, b));
    auto h = compressed_tuple{ a } >> (compressed_tuple{ b } << all);
    CHECK("both ends", h(c) == vf_uf(1, a, c, b) && h() == vf_uf(1, a, b));
    auto k = compressed_tuple{ h, c } >> [](auto &&inner, int v) { return inner(v); };
    CHECK("a bound function as argument", k() == vf_uf(1, a, c, b));
}

HARNESS(overloads) {
    int a = vf_nondet_i32(), x = vf_nondet_i32();
    auto f = pigro::overload{
        compressed_tuple{ a } >> [](int v, std::nullptr_t) { return vf_uf(1, v); },
        compressed_tuple{ a } << [](Point p, int v) { return vf_uf(2, p.x, v); },
        [](double, double) { return 3; },
    };
    CHECK("chosen by the arguments", f(nullptr) == vf_uf(1, a) && f(Point{ x, 1 }) == vf_uf(2, x, a));
    CHECK("chosen by the number of arguments", f(1.0, 2.0) == 3);
    CHECK("only what can be called", !std::is_invocable_v<decltype(compressed_tuple{ 1 } >> [](int, std::nullptr_t) {}), double>);
    CHECK("only what can be called, back", !std::is_invocable_v<decltype(compressed_tuple{ 1 } << [](std::nullptr_t, int) {}), double>);
}

struct Adder {
    int base;
    int add(int x, int y) { return base = vf_uf(1, base, x, y); }
};
static int free_function(int a, int b, int c) { return vf_uf(1, a, b, c); }
HARNESS(callables) {
    int a = vf_nondet_i32(), b = vf_nondet_i32(), x = vf_nondet_i32();
    auto f = compressed_tuple{ Adder{ a }, b } >> &Adder::add;
    CHECK("member function, with the object bound", f(x) == vf_uf(1, a, b, x) && f(b) == vf_uf(1, vf_uf(1, a, b, x), b, b));
    auto g = compressed_tuple{ b } << &Adder::add;
    Adder o{ a };
    CHECK("member function, with the object passed", g(o, x) == vf_uf(1, a, x, b) && o.base == vf_uf(1, a, x, b));
    auto h = compressed_tuple{ a } >> free_function;
    auto k = compressed_tuple{ a, b } << &free_function;
    CHECK("function", h(b, x) == vf_uf(1, a, b, x));
    CHECK("function pointer", k(x) == vf_uf(1, x, a, b));
    std::function<int(int, int, int)> e = free_function;
    auto m = compressed_tuple{ a, x } >> e;
    CHECK("std::function", m(b) == vf_uf(1, a, x, b));
}
