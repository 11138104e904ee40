#include "common/heap_typed.inc"
HARNESS(h_square) { typed<Square>(); }
HARNESS(h_optional) { typed<std::optional<int>>(); }

HARNESS(without_result) {
    unsigned char a = any_key();
    int runs = 0;
    allocations = 0;
    counting = true;
    {
        auto g = lazy([&](int) { ++runs; }, [&] { return int(a); });
        auto f = lazy([&](auto, const Large &) { ++runs; }, g, [&] { return make<Large>(a); });
        for (int i = 0; i < HIST(3); ++i) {
            f();
            a = any_key();
        }
        auto c = f;
        c();
    }
    counting = false;
    CHECK("no heap memory", allocations == 0 && runs > 0);
    COVER("end");
}
