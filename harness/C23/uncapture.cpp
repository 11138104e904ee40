// BOUNDS: to_tuple of compressed_tuple, std::tuple and std::pair of 0 to 5 elements; uncaptured with 1 to 4 values; all values
#include "vf.h"

#include <functional>
#include <string>
#include <tuple>

#include "pigro/overload.h"
#include "pigro/uncapture.h"

using pigro::uncaptured;
struct Empty {
    int tag() const { return 7; }
};
#define ANY vf_nondet_i32()

HARNESS(single) {
    int a = ANY, x = ANY, y = ANY;
    auto f = uncaptured(a) >> [](auto... v) { return vf_uf(1, v...); };
    CHECK("passed as the last argument", f() == vf_uf(1, a) && f(x) == vf_uf(1, x, a) && f(x, y) == vf_uf(1, x, y, a));
    const auto k = f;
    CHECK("constant", k(x) == vf_uf(1, x, a));
    int a0 = a;
    a = ANY;
    CHECK("a copy of the value", f(x) == vf_uf(1, x, a0));
    CHECK("the value only", sizeof(f) == sizeof(int));
}

HARNESS(state) {
    int s = ANY, x = ANY;
    auto f = uncaptured(s) >> [](int x, int &n) { return n = vf_uf(1, n, x); };
    int n = s;
    for (unsigned i = vf_pick(3); i; --i) {
        n = vf_uf(1, n, x);
        CHECK("state is kept", f(x) == n);
        x = ANY;
    }
    auto c = f;
    CHECK("copies are independent", f(x) == vf_uf(1, n, x) && c(x) == vf_uf(1, n, x) && f(1) == vf_uf(1, vf_uf(1, n, x), 1));
    auto g = uncaptured(1) >> [n = s](int x, int) mutable { return n = vf_uf(1, n, x); };
    n = vf_uf(1, s, x);
    CHECK("state of the function", g(x) == n && g(x) == vf_uf(1, n, x));
}

HARNESS(stateless) {
    int a = ANY, x = ANY;
    auto f = uncaptured(Empty{}) >> [](int x, auto e) { return vf_uf(1, x, e.tag()); };
    CHECK("stateless value", f(x) == vf_uf(1, x, 7) && sizeof(f) == 1);
    auto h = uncaptured([](int v) { return vf_uf(2, v); }) >> [a](int x, auto g) { return vf_uf(1, g(x), a); };
    CHECK("stateless function", h(x) == vf_uf(1, vf_uf(2, x), a) && sizeof(h) == sizeof(int));
}

HARNESS(overloads) {
    int a = ANY, x = ANY;
    auto f = pigro::overload{
        uncaptured(a) >> [](std::nullptr_t, int v) { return vf_uf(1, v); },
        [](double) { return 2; },
    };
    CHECK("only what can be called", f(nullptr) == vf_uf(1, a) && f(1.0) == 2);
}

HARNESS(several) {
    int a = ANY, b = ANY, c = ANY, d = ANY, x = ANY, y = ANY;
    auto all = [](auto... v) { return vf_uf(1, v...); };
    auto f2 = uncaptured(a, b) >> all;
    CHECK("2 values", f2() == vf_uf(1, a, b) && f2(x) == vf_uf(1, x, a, b) && f2(x, y) == vf_uf(1, x, y, a, b));
    auto f3 = uncaptured(a, b, c) >> all;
    CHECK("3 values", f3() == vf_uf(1, a, b, c) && f3(x) == vf_uf(1, x, a, b, c) && f3(x, y) == vf_uf(1, x, y, a, b, c));
    auto f4 = uncaptured(a, b, c, d) >> all;
    CHECK("4 values", f4() == vf_uf(1, a, b, c, d) && f4(x) == vf_uf(1, x, a, b, c, d));
    const auto k = f3;
    CHECK("constant, several", k(x) == vf_uf(1, x, a, b, c));
    CHECK("the values only", sizeof(f2) == 2 * sizeof(int) && sizeof(f3) == 3 * sizeof(int) && sizeof(f4) == 4 * sizeof(int));
}

struct Other {
    int tag() const { return 9; }
};
HARNESS(several_types) {
    int a = ANY, b = ANY, x = ANY;
    char c = vf_nondet_i8();
    auto f = uncaptured(a, Empty{}, c) >> [](int x, int a, auto e, char c) { return vf_uf(1, x, a, e.tag(), c); };
    CHECK("a stateless one in the middle", f(x) == vf_uf(1, x, a, 7, c));
    auto g = uncaptured(Empty{}, a, Other{}) >> [](int x, auto e, int a, auto o) { return vf_uf(1, x, e.tag(), a, o.tag()); };
    CHECK("stateless ones around", g(x) == vf_uf(1, x, 7, a, 9));
    auto s = uncaptured(Empty{}, Other{}) >> [](int x, auto e, auto o) { return vf_uf(1, x, e.tag(), o.tag()); };
    CHECK("stateless ones only", s(x) == vf_uf(1, x, 7, 9) && sizeof(s) == 1);
    auto h = uncaptured(a) >> (uncaptured(b) >> [](int x, int a, int b) { return vf_uf(1, x, a, b); });
    CHECK("on top of each other", h(x) == vf_uf(1, x, a, b));
    auto p = uncaptured(a, b) >> [](int x, int &m, int &n) { m = vf_uf(1, m, x); n = vf_uf(2, n, m); return n; };
    const int m1 = vf_uf(1, a, x), n1 = vf_uf(2, b, m1);
    CHECK("states are kept, first call", p(x) == n1);
    auto q = p;
    CHECK("states are kept", p(x) == vf_uf(2, n1, vf_uf(1, m1, x)));
    CHECK("states of a copy", q(b) == vf_uf(2, n1, vf_uf(1, m1, b)));
    auto t = uncaptured(std::string("ab"), c, std::string("cd")) >> [](std::string p, const std::string &a, char c, const std::string &b) { return p + a + c + b; };
    CHECK("strings", t("x") == std::string("xab") + c + "cd" && t("") == std::string("ab") + c + "cd");
    auto o = pigro::overload{ uncaptured(a, b) >> [](std::nullptr_t, int v, int w) { return vf_uf(1, v, w); }, [](double) { return 2; } };
    CHECK("only what can be called, several", o(nullptr) == vf_uf(1, a, b) && o(1.0) == 2);
}
