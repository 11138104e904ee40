// BOUNDS: 14 kinds of lazy functions (results of 1 to 16 bytes, stateless and stateful functions and dependencies); histories of 4 calls with arbitrary changes
#include "common/lazy_common.h"

#include <array>

template<typename R>
struct Result {
    R operator()() const { return R{}; }
};
template<typename R, typename T>
bool same_size(const T &f) { return sizeof(f) == sizeof(std::optional<R>); }

// at most the parts, each of them aligned
template<typename F, typename... Parts>
bool at_most(const F &f) {
    constexpr size_t a = alignof(F);
    return sizeof(F) <= (((sizeof(Parts) + a - 1) / a * a) + ...);
}
using Cache = std::optional<int>;

HARNESS(no_result) {
    auto f = lazy([] {});
    CHECK("stateless function without result: a single byte", sizeof(f) == 1);
    int runs = 0;
    auto g = lazy([&runs] { ++runs; });
    CHECK("stateful function without result: its state, and a flag", sizeof(g) <= sizeof(int *) + alignof(int *));
    f(), g(), g();
    CHECK("runs once", runs == 1);
}

HARNESS(cache_only) {
    CHECK("only the cache: char", same_size<char>(lazy(Result<char>{})));
    CHECK("only the cache: int", same_size<int>(lazy([] { return 0; })));
    CHECK("only the cache: double", same_size<double>(lazy(Result<double>{})));
    CHECK("only the cache: struct", same_size<Point>(lazy(Result<Point>{})));
    CHECK("only the cache: array", same_size<std::array<char, 5>>(lazy(Result<std::array<char, 5>>{})));
}

HARNESS(stateful) {
    int x = vf_nondet_i32();
    auto by_value = lazy([=] { return x; });
    auto by_reference = lazy([&] { return x; });
    auto value = lazy([](int v) { return v; }, x);
    CHECK("cache and captured value", sizeof(by_value) == sizeof(Cache) + sizeof(int));
    CHECK("cache and captured reference", at_most<decltype(by_reference), Cache, int *>(by_reference));
    CHECK("cache and value", sizeof(value) == sizeof(Cache) + sizeof(int));
    CHECK("the values", by_value() == x && by_reference() == x && value() == x);
}
