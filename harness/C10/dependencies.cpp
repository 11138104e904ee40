// BOUNDS: 14 kinds of lazy functions (results of 1 to 16 bytes, stateless and stateful functions and dependencies); histories of 4 calls with arbitrary changes
#include "common/lazy_common.h"

template<typename F, typename... Parts>
bool at_most(const F &f) {
    constexpr size_t a = alignof(F);
    return sizeof(F) <= (((sizeof(Parts) + a - 1) / a * a) + ...);
}
using Cache = std::optional<int>;
static int global;

HARNESS(functions) {
    int x = vf_nondet_i32();
    auto stateless = lazy([](int v) { return v; }, [] { return global; });
    auto by_value = lazy([](int v) { return v; }, [=] { return x; });
    auto by_reference = lazy([](int v) { return v; }, [&] { return x; });
    CHECK("two caches", sizeof(stateless) == 2 * sizeof(Cache));
    CHECK("two caches and a captured value", sizeof(by_value) == 2 * sizeof(Cache) + sizeof(int));
    CHECK("two caches and a captured reference", at_most<decltype(by_reference), Cache, Cache, int *>(by_reference));
    CHECK("the values", stateless() == global && by_value() == x && by_reference() == x);
}

HARNESS(lazies) {
    auto g = lazy([] { return global; });
    auto f = lazy([](int v) { return v; }, g);
    auto h = lazy([](int v, int w) { return v; }, f, g);
    auto act = lazy([](int) {}, g);
    CHECK("two caches", sizeof(f) == 2 * sizeof(Cache));
    CHECK("four caches", sizeof(h) == 4 * sizeof(Cache));
    CHECK("without result: a cache and a flag", sizeof(act) <= sizeof(Cache) + alignof(Cache));
    CHECK("the values", h() == global && f() == global);
}
