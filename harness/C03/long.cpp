// BOUNDS: histories of 24 calls of which any one follows a change, and of 300 calls that all do (thorough: 60 and 600)
#include "common/lazy_common.h"

static int other_than(int x) {
    int v = vf_nondet_i32();
    vf_assume(v != x);
    return v;
}
HARNESS(one_change) {
    const int n = BOUND(24, 60), t = vf_pick(n);
    int a = vf_nondet_i32(), asked = 0, below = 0, runs = 0;
    const int v = vf_nondet_i32();
    auto g = lazy([](int x) { return x; }, [&] { ++below; return a; });
    auto f = lazy([s = 0](int x, int y, int z) mutable { return vf_uf(1, x, y, z, ++s); }, [&] { ++asked; return a; }, g, v);
    for (int i = 0; i < n; ++i) {
        if (i == t) a = other_than(a);
        CHECK("up to date, with its own state", f() == vf_uf(1, a, a, v, t > 0 && i >= t ? 2 : 1));
        CHECK("asked once for each call", asked == i + 1 && below == i + 1);
    }
    COVER("end");
}
HARNESS(counting) {
    const int v = vf_nondet_i32();
    auto f = lazy([s = 0](int x, int y, int z) mutable { return vf_uf(1, x, y, z, ++s); }, [n = 0]() mutable { return ++n; }, v, [n = 0, k = 0]() mutable { return n += ++k % 3 == 0; });
    for (int i = 1; i <= BOUND(300, 600); ++i)
        CHECK("all of the state is kept", f() == vf_uf(1, i, v, i / 3, i));
    COVER("end");
}
