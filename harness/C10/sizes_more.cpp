// BOUNDS: 1 to 6 stateless functions, 1 to 6 plain values and 3 lazy functions as dependencies, of char, int, double and a struct; stateless functions without result on top of each other
#include "common/lazy_common.h"

static int global;
HARNESS(six) {
    auto r = [] { return global; };
    auto s = [](auto...) { return 1; };
    auto f = lazy(s, r, r, r, r, r, r);
    CHECK("seven caches", sizeof(f) == 7 * sizeof(std::optional<int>));
    auto v = lazy(s, 1, 2, 3, 4, 5, 6);
    CHECK("a cache and six values", sizeof(v) == sizeof(std::optional<int>) + 6 * sizeof(int));
    CHECK("the value", f() == 1 && v() == 1);
}
HARNESS(no_result) {
    auto f = lazy([] { ++global; });
    auto g = lazy([](pigro::regular_void) {}, f);
    auto h = lazy([](pigro::regular_void, pigro::regular_void) {}, g, f);
    CHECK("a single byte for each", sizeof(f) == 1 && sizeof(g) == 2 && sizeof(h) == 4);
    h(), g(), f();
    CHECK("a copy for each", global == 4);
}
struct Nothing {};
struct Other {
    char value() const { return 1; }
};
HARNESS(empty_values) {
    auto f = lazy([](Nothing, Other b, Nothing) { return b.value(); }, Nothing{}, Other{}, Nothing{});
    CHECK("values without state take no space", sizeof(f) == sizeof(std::optional<char>));
    CHECK("the value", f() == 1);
}
struct State {
    long a, b;
    int operator()(int x) { return int(++a) + x; }
};
HARNESS(state) {
    auto f = lazy(State{ 1, 2 }, [] { return global; });
    CHECK("two caches and the state", sizeof(f) <= sizeof(State) + 2 * sizeof(std::optional<int>));
    std::function<int()> e = [] { return 1; };
    auto g = lazy([](int x) { return long(x); }, e);
    CHECK("two caches and a std::function", sizeof(g) <= sizeof(e) + 2 * sizeof(std::optional<long>));
    CHECK("the value", f() == 2 + global && g() == 1);
}
