// BOUNDS: histories of 5 calls with arbitrary changes; heap blocks in use, and allocations that have been made, by the lazy function itself and for strings in its cache
#include "common/lazy_common.h"

static int allocations;
static bool counting;
void *operator new(size_t n) { allocations += counting; return std::malloc(n); }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete(void *p, size_t) noexcept { std::free(p); }

HARNESS(heap_free) {
    int a = vf_nondet_i32(), b = vf_nondet_i32();
    allocations = 0;
    counting = true;
    auto g = lazy([&](int x) { return x & 7; }, [&] { return a; });
    auto f = lazy([&](int x, int y, long z) { return x ^ y; }, g, [&] { return b; }, 5L);
    counting = false;
    CHECK("no heap memory for the construction", allocations == 0);
    for (int i = 0; i < BOUND(3, 4); ++i) {
        counting = true;
        const int r = f();
        counting = false;
        CHECK("up to date", r == ((a & 7) ^ b));
        CHECK("no heap memory at all", allocations == 0);
        a = vf_nondet_i32(), b = vf_nondet_i32();
    }
    counting = true;
    auto c = f;
    const int r = c();
    counting = false;
    CHECK("no heap memory for copies either", allocations == 0 && r == ((a & 7) ^ b));
    COVER("end");
}
