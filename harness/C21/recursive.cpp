// BOUNDS: recursive functions with an argument of up to 8 (fibonacci up to 6), mutual recursion through overloads, state kept across 3 calls; all values of the state
#include "common/tuple_common.h"

#include <functional>

#include "pigro/overload.h"
#include "pigro/recursive.h"

using pigro::overload;
using pigro::recursive;
#define ANY vf_nondet_i32()

HARNESS(numbers) {
    auto fib = recursive{ [](auto self, int n) -> int { return n < 2 ? 1 : self(n - 2) + self(n - 1); } };
    auto sum = recursive{ [](auto &&self, unsigned n) -> unsigned { return n == 0 ? 0 : n + self(n - 1); } };
    int n = vf_range(0, 7);
    int x = 1, y = 1;
    for (int i = 1; i <= n; ++i) { int z = x + y; if (i > 1) { x = y; y = z; } }
    int p = 1, q = 1;
    for (int i = 2; i <= n; ++i) { int r = p + q; p = q; q = r; }
    CHECK("fibonacci", fib(n) == q);
    CHECK("sum", sum(n) == unsigned(n * (n + 1) / 2));
    CHECK("stateless", sizeof(fib) == 1);
    if (n == 6) COVER("deepest");
}

HARNESS(mutual) {
    auto f = recursive{ overload{
      [](auto &&self, int n) -> bool { return n == 0 ? true : self(long(n - 1)); },
      [](auto &&self, long n) -> bool { return n == 0 ? false : self(int(n - 1)); },
      [](auto &&self, const char *) { return self(4); },
    } };
    int n = vf_range(0, 9);
    CHECK("even", f(n) == (n % 2 == 0));
    CHECK("odd", f(long(n)) == (n % 2 != 0));
    CHECK("through another one", f("") == true);
    COVER("end");
}

// the very same object all the way down
HARNESS(state) {
    int s = ANY;
    auto f = recursive{ [n = s](auto &&self, int depth) mutable -> int {
        n = vf_uf(1, n, depth);
        return depth ? self(depth - 1) : n;
    } };
    int n = s;
    for (int i = 0; i < HIST(3); ++i) {
        int d = vf_pick(3);
        for (int k = d; k >= 0; --k) n = vf_uf(1, n, k);
        CHECK("state is shared by all levels, and kept", f(d) == n);
        if (i == 1) {
            auto c = f;
            CHECK("a copy has a state of its own", c(0) == vf_uf(1, n, 0));
        }
    }
    COVER("end");
}

HARNESS(identity) {
    auto f = recursive{ [n = 5](auto &&self, int) { return (const void *)&self; } };
    const auto &k = f;
    CHECK("itself", f(0) == &f && k(0) == &f && std::move(f)(0) == &f);
    auto g = recursive{ [](auto &&self) -> decltype(auto) { return std::forward<decltype(self)>(self); } };
    const auto &cg = g;
    static_assert(std::is_same_v<decltype(g()), decltype(g) &>);
    static_assert(std::is_same_v<decltype(cg()), const decltype(g) &>);
    static_assert(std::is_same_v<decltype(std::move(g)()), decltype(g) &&>);
    static_assert(std::is_same_v<decltype(std::move(cg)()), const decltype(g) &&>);
    CHECK("by reference", &g() == &g && &cg() == &g);
}

struct Kinds {
    int a;
    int operator()(auto &&, int x) & { return vf_uf(1, a, x); }
    int operator()(auto &&, int x) && { return vf_uf(2, a, x); }
    int operator()(auto &&, int x) const & { return vf_uf(3, a, x); }
    int operator()(auto &&, int x) const && { return vf_uf(4, a, x); }
};
HARNESS(categories) {
    int a = ANY, x = ANY;
    auto f = recursive{ Kinds{ a } };
    const auto k = f;
    CHECK("lvalue", f(x) == vf_uf(1, a, x));
    CHECK("temporary", std::move(f)(x) == vf_uf(2, a, x));
    CHECK("constant", k(x) == vf_uf(3, a, x));
    CHECK("constant temporary", std::move(k)(x) == vf_uf(4, a, x));
}

HARNESS(arguments) {
    int x = ANY, a = ANY, b = ANY;
    auto f = recursive{ [](auto &&self, int &r, const int &k, auto &&t) { r = k; return std::is_rvalue_reference_v<decltype(t)>; } };
    CHECK("forwarded", f(x, a, 5) && x == a && !f(x, b, x) && x == b);
    auto g = recursive{ [](auto &&self, std::unique_ptr<int> p, int n) -> int { return n ? self(std::move(p), n - 1) : *p; } };
    CHECK("move-only", g(std::make_unique<int>(a), 3) == a);
    auto h = recursive{ [&](auto &&self, int n) -> int & { return n ? self(n - 1) : x; } };
    CHECK("result by reference", &h(2) == &x);
    auto w = recursive{ overload{ [](auto &&, int) { return 1; }, [](auto &&...) { return 2; } } };
    CHECK("no arguments, more arguments", w(1) == 1 && w() == 2 && w(1, 2) == 2);
    CHECK("only what can be called", !std::is_invocable_v<decltype(g) &, int>);
}
