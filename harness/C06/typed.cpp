// BOUNDS: functions without result, 24 and 140 calls (thorough: 60 and 400)
#include "common/typed.h"

HARNESS(long_history) {
    const int n = BOUND(24, 60), t = vf_pick(n);
    unsigned char a = any_key(), b = any_key();
    vf_assume(a != b);
    int runs = 0, last = 0;
    auto f = lazy([&](int x) { ++runs; last = x; }, [&] { return a; });
    for (int i = 0; i < n; ++i) {
        if (i == t) a = b;
        f();
        CHECK("runs when needed", runs == 1 + (t > 0 && i >= t) && last == a);
    }
    COVER("end");
}
HARNESS(always) {
    int a = 0, runs = 0, last = 0;
    auto f = lazy([&](int x) { ++runs; last = x; }, [&] { return a; });
    for (int i = 1; i <= BOUND(140, 400); ++i) {
        f(), f();
        CHECK("runs for each change", runs == i && last == a);
        ++a;
    }
    COVER("end");
}
