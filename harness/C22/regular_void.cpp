// BOUNDS: functions with and without result, of 0 to 3 arguments, stateless and stateful; all values; 3 calls
#include "vf.h"

#include <functional>
#include <memory>
#include <string>
#include <tuple>

#include "pigro/regular_void.h"

using pigro::regular_void;
using pigro::regularized_void;
using pigro::unregularized_void;
#define ANY vf_nondet_i32()

HARNESS(no_result) {
    int n = 0, sum = 0;
    auto f = regularized_void([&](auto... x) { ++n; sum = vf_uf(1, sum, x...); });
    static_assert(std::is_same_v<decltype(f(1)), regular_void>);
    int a = ANY, b = ANY, s = 0;
    for (int i = 1; i <= 2; ++i) {
        CHECK("a regular result", f() == regular_void{});
        s = vf_uf(1, s);
        CHECK("called once, without arguments", n == 4 * i - 3 && sum == s);
        f(a);
        s = vf_uf(1, s, a);
        CHECK("called once, with its argument", n == 4 * i - 2 && sum == s);
        f(a, b);
        s = vf_uf(1, s, a, b);
        CHECK("called once, with its arguments", n == 4 * i - 1 && sum == s);
        f(b, a, 3);
        s = vf_uf(1, s, b, a, 3);
        CHECK("called once, with all of its arguments", n == 4 * i && sum == s);
        a = ANY, b = ANY;
    }
}

HARNESS(with_result) {
    int n = 0, a = ANY, b = ANY;
    auto f = regularized_void([&](auto... x) { ++n; return vf_uf(1, x...); });
    static_assert(std::is_same_v<decltype(f(1)), int>);
    CHECK("the result itself", f() == vf_uf(1) && f(a) == vf_uf(1, a) && f(a, b) == vf_uf(1, a, b) && f(a, b, a) == vf_uf(1, a, b, a));
    CHECK("called once each", n == 4);
    auto g = unregularized_void([&](auto... x) { ++n; return vf_uf(1, x...); });
    static_assert(std::is_same_v<decltype(g(1)), int>);
    CHECK("the result itself, unregularized", g() == vf_uf(1) && g(a) == vf_uf(1, a) && g(a, b) == vf_uf(1, a, b));
    CHECK("called once each, unregularized", n == 7);
    auto t = regularized_void([](const std::string &s, char c) { return s + c; });
    CHECK("other types", t(std::string("ab"), 'c') == "abc");
}

HARNESS(and_back) {
    int n = 0, a = ANY, seen = 0;
    auto f = unregularized_void([&](int x) { ++n; seen = x; return regular_void{}; });
    static_assert(std::is_void_v<decltype(f(1))>);
    f(a);
    CHECK("called once", n == 1 && seen == a);
    auto g = unregularized_void(regularized_void([&](int x, int y) { ++n; seen = vf_uf(1, x, y); }));
    static_assert(std::is_void_v<decltype(g(1, 2))>);
    g(a, n);
    CHECK("there and back", n == 2 && seen == vf_uf(1, a, 1));
    auto h = unregularized_void(regularized_void([&](int x) { return vf_uf(1, x); }));
    CHECK("there and back, with a result", h(a) == vf_uf(1, a));
}

HARNESS(state) {
    int s = ANY, x = ANY;
    int out = 0;
    auto f = regularized_void([n = s, &out](int x) mutable { out = n = vf_uf(1, n, x); });
    auto g = unregularized_void([n = s](int x) mutable { return n = vf_uf(1, n, x); });
    int n = s;
    for (unsigned i = vf_pick(3); i; --i) {
        n = vf_uf(1, n, x);
        f(x);
        CHECK("state is kept", out == n);
        CHECK("state is kept, unregularized", g(x) == n);
        x = ANY;
    }
    auto c = f;
    auto d = g;
    f(x);
    g(x);
    CHECK("original", out == vf_uf(1, n, x));
    c(x);
    CHECK("copy", out == vf_uf(1, n, x));
    CHECK("copy, unregularized", d(x) == vf_uf(1, n, x));
    CHECK("no space for stateless functions", sizeof(regularized_void([] {})) == 1 && sizeof(unregularized_void([] { return 0; })) == 1);
}

HARNESS(values) {
    regular_void a, b;
    CHECK("all values are equal", a == b && !(a != b) && a <= b && a >= b && !(a < b) && !(a > b));
    CHECK("a regular type", std::regular<regular_void>);
}

// std::optional<regular_void>: any sequence of operations
HARNESS(optional) {
    std::optional<regular_void> o;
    bool engaged = false;
    for (int i = 0; i < HIST(4); ++i) {
        switch (vf_pick(5)) {
        case 0: o = regular_void{}; engaged = true; COVER("value"); break;
        case 1: o = std::optional<regular_void>{}; engaged = false; COVER("empty"); break;
        case 2: o = std::optional<regular_void>{ regular_void{} }; engaged = true; break;
        case 3: { auto c = o; o = c; } break;
        default: { auto c = o; c = regular_void{}; CHECK("copies are independent", bool(o) == engaged && bool(c)); }
        }
        CHECK("engaged", bool(o) == engaged);
        CHECK("compared with an empty one", (o == std::optional<regular_void>{}) == !engaged && (o != std::optional<regular_void>{}) == engaged);
        CHECK("compared with a value", (o == regular_void{}) == engaged && (regular_void{} != o) == !engaged);
        const std::optional<regular_void> none, some{ regular_void{} };
        CHECK("compared in either order", (none == o) == !engaged && (none != o) == engaged && (some == o) == engaged && (o == some) == engaged && (some != o) == !engaged && (o != some) == !engaged);
        if (engaged) CHECK("its value", *o == regular_void{});
    }
    CHECK("a flag only", sizeof(o) == sizeof(bool));
}
