// BOUNDS: allocations for dependencies and results of 18 types without heap memory of their own (1 to 136 bytes, over-aligned, self-referring, polymorphic, optional, array), functions without result and 12 dependencies; 3 calls with arbitrary changes
#include "common/typed.h"

static int allocations;
static bool counting;
void *operator new(size_t n) { allocations += counting; return std::malloc(n); }
void *operator new(size_t n, std::align_val_t) { allocations += counting; return std::malloc(n + 64); }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete(void *p, size_t) noexcept { std::free(p); }
void operator delete(void *p, std::align_val_t) noexcept { std::free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { std::free(p); }

template<typename T>
static void typed() {
    unsigned char a = any_key<T>(), b = any_key<T>();
    allocations = 0;
    counting = true;
    {
        auto g = lazy([&](const T &x) { return x; }, [&] { return make<T>(a); });
        auto f = lazy([&](const T &x, const T &y, const T &) { return x == y ? x : y; }, g, [&] { return make<T>(b); }, make<T>(3));
        for (int i = 0; i < HIST(3); ++i) {
            const auto r = f();
            CHECK("up to date", r == make<T>(b));
            CHECK("no heap memory", allocations == 0);
            if (vf_choose(2)) a = any_key<T>();
            else b = any_key<T>();
        }
        auto c = f;
        c();
        auto m = std::move(c);
        m();
        const auto r = f();
        CHECK("no heap memory for copies either", allocations == 0 && r == make<T>(b));
    }
    CHECK("no heap memory until the end", allocations == 0);
    counting = false;
    COVER("end");
}
