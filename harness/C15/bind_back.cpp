// BOUNDS: bind_back with 0 to 3 bound and 0 to 3 passed arguments of any value; bound by value, by reference, move-only; any sequence of 4 calls of an original and its copy
#include "common/bind_common.h"

using pigro::bind_back;
static constexpr auto all = [](auto... a) { return vf_uf(1, a...); };
#define ANY vf_nondet_i32()

HARNESS(order) {
    int a = ANY, b = ANY, c = ANY, x = ANY, y = ANY, z = ANY;
    auto f0 = bind_back(all);
    auto f1 = bind_back(all, int(a));
    auto f2 = bind_back(all, int(a), int(b));
    auto f3 = bind_back(all, int(a), int(b), int(c));
    for (int i = 0; i < HIST(2); ++i) {
        CHECK("nothing bound", f0() == vf_uf(1) && f0(x) == vf_uf(1, x) && f0(x, y, z) == vf_uf(1, x, y, z));
        CHECK("one bound", f1() == vf_uf(1, a) && f1(x) == vf_uf(1, x, a) && f1(x, y) == vf_uf(1, x, y, a) && f1(x, y, z) == vf_uf(1, x, y, z, a));
        CHECK("two bound", f2() == vf_uf(1, a, b) && f2(x) == vf_uf(1, x, a, b) && f2(x, y, z) == vf_uf(1, x, y, z, a, b));
        CHECK("three bound", f3() == vf_uf(1, a, b, c) && f3(x) == vf_uf(1, x, a, b, c) && f3(x, y, z) == vf_uf(1, x, y, z, a, b, c));
        x = ANY, y = ANY, z = ANY;
    }
}

HARNESS(by_value_and_reference) {
    int a = ANY, b = ANY;
    auto f = bind_back([](int x, int &r, int v) { r = x; return v; }, a, int(b));
    for (int i = 0; i < HIST(3); ++i) {
        int x = ANY;
        CHECK("temporaries are kept by value", f(x) == b);
        CHECK("named arguments by reference", a == x);
    }
    COVER("end");
}

HARNESS(state) {
    int s = ANY, x = ANY;
    auto f = bind_back([n = s](int x, int k) mutable { return n = vf_uf(1, n, x, k); }, 5);
    auto g = bind_back([](int x, int &k) { return k = vf_uf(1, k, x); }, int(s));
    int n = s, k = s;
    for (unsigned i = vf_pick(3); i; --i) {
        n = vf_uf(1, n, x, 5);
        CHECK("the callable keeps its state", f(x) == n);
        k = vf_uf(1, k, x);
        CHECK("the bound value keeps its state", g(x) == k);
        x = ANY;
    }
    auto fc = f;
    auto gc = g;
    int nc = n, kc = k;
    for (int i = 0; i < HIST(3); ++i) {
        if (vf_nondet_bool()) {
            n = vf_uf(1, n, x, 5), k = vf_uf(1, k, x);
            CHECK("originals", f(x) == n && g(x) == k);
        } else {
            nc = vf_uf(1, nc, x, 5), kc = vf_uf(1, kc, x);
            CHECK("copies", fc(x) == nc && gc(x) == kc);
        }
        x = ANY;
    }
    COVER("end");
}

HARNESS(named_callable) {
    int s = ANY, x = ANY;
    auto c = [n = s](int x, int k) mutable { return n = vf_uf(1, n, x, k); };
    auto f = bind_back(c, 3);
    int n = vf_uf(1, s, x, 3);
    CHECK("called through the binding", f(x) == n);
    n = vf_uf(1, n, x, 3);
    CHECK("a named callable is referred to", c(x, 3) == n);
    n = vf_uf(1, n, x, 3);
    CHECK("in both directions", f(x) == n);
}

HARNESS(move_only) {
    int a = ANY, b = ANY;
    {
        auto f = bind_back([](std::unique_ptr<int> p, int v) { return vf_uf(1, *p, v); }, int(a));
        CHECK("move-only argument", f(std::make_unique<int>(b)) == vf_uf(1, b, a) && f(std::make_unique<int>(a)) == vf_uf(1, a, a));
        auto g = bind_back([](int v, const std::unique_ptr<int> &p) { return vf_uf(1, v, *p); }, std::make_unique<int>(a));
        CHECK("move-only bound argument", g(b) == vf_uf(1, b, a) && g(a) == vf_uf(1, a, a));
        struct Callable {
            std::unique_ptr<int> p;
            int operator()(int x, int y) const { return vf_uf(1, *p, x, y); }
        };
        auto h = bind_back(Callable{ std::make_unique<int>(b) }, int(a));
        CHECK("move-only callable", h(a) == vf_uf(1, b, a, a) && h(b) == vf_uf(1, b, b, a));
        auto m = std::move(h);
        CHECK("moved", m(a) == vf_uf(1, b, a, a));
    }
    CHECK("released", vf_live_heap() == 0);
}

struct Obj {
    int v;
    int get(int x) const { return vf_uf(1, v, x); }
};
HARNESS(results) {
    int a = ANY, x = ANY, n = 0;
    auto f = bind_back([](int &r, int) -> int & { return r; }, 1);
    static_assert(std::is_same_v<decltype(f(x)), int &>);
    CHECK("result by reference", &f(x) == &x);
    auto g = bind_back([&](int p, int q) { n = vf_uf(1, p, q); }, int(a));
    g(x);
    CHECK("no result", n == vf_uf(1, x, a));
    auto h = bind_back(&Obj::get, int(a));
    CHECK("member function", h(Obj{ x }) == vf_uf(1, x, a));
    CHECK("only what can be called", !std::is_invocable_v<decltype(bind_back([](std::nullptr_t, int) {}, 0)) &, double> && std::is_invocable_v<decltype(bind_back([](double, int) {}, 0)) &, double>);
}

struct Qualified { // the bound callable is called as an lvalue, repeatedly
    int operator()(int x, int k) & { return vf_uf(1, x, k); }
    char operator()(int x, int k) && { return 'x'; }
};
HARNESS(qualified) {
    int x = ANY, a = ANY;
    auto f = bind_back(Qualified{}, int(a));
    CHECK("called as an lvalue, the result is not converted", f(x) == vf_uf(1, x, a) && f(a) == vf_uf(1, a, a));
}

HARNESS(types) {
    char c = vf_nondet_i8();
    long l = vf_nondet_i64();
    bool b = vf_nondet_bool();
    Point p{ ANY, ANY };
    auto f = bind_back([&](auto q, auto r, auto s, auto t) {
        static_assert(std::is_same_v<decltype(q), char> && std::is_same_v<decltype(r), long> && std::is_same_v<decltype(s), bool> && std::is_same_v<decltype(t), Point>);
        return q == c && r == l && s == b && t == p;
    }, bool(b), Point(p));
    CHECK("different types end up where they belong", f(c, l));
}
