// BOUNDS: chains of 1 to 12 lazy functions, with and without plain values and functions on the side; no heap memory in 3 calls of any values
#include "common/lazy_common.h"

static int allocations;
void *operator new(size_t n) { ++allocations; return std::malloc(n); }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete(void *p, size_t) noexcept { std::free(p); }

static int source;
template<int n>
static auto chain() {
    if constexpr (n == 0) return [] { return source; };
    else return lazy([](int x) { return x >> 1; }, chain<n - 1>());
}
template<int n>
static auto sides() {
    if constexpr (n == 0) return [] { return source; };
    else return lazy([](int x, int y, int z) { return x ^ y ^ z; }, sides<n - 1>(), n, [] { return source; });
}
template<int n>
static void deep() {
    // an optional int for each lazy function and each function
    CHECK("a cache for each, and no more", sizeof(chain<n>()) <= (n + 1) * sizeof(std::optional<int>));
    CHECK("a value and two caches for each, and no more", sizeof(sides<n>()) <= (2 * n + 1) * sizeof(std::optional<int>) + n * sizeof(int));
    allocations = 0;
    source = vf_nondet_i32();
    auto f = chain<n>();
    auto g = sides<n>();
    for (int i = 0; i < HIST(2); ++i) {
        CHECK("the value", f() == source >> n);
        g();
        source = vf_nondet_i32();
    }
    CHECK("no heap memory", allocations == 0);
    COVER("end");
}
HARNESS(deep_1) { deep<1>(); }
HARNESS(deep_4) { deep<4>(); }
HARNESS(deep_7) { deep<7>(); }
HARNESS(deep_12) { deep<12>(); }
