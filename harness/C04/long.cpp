// BOUNDS: chains of 2 and 4 lazy functions with 300 calls (thorough: 600), the source of which changes before every one of them, to values that the intermediate results do or do not tell apart
#include "common/lazy_common.h"

static int other_than(int x) {
    int v = vf_nondet_i32();
    vf_assume(v != x);
    return v;
}

// everything changes all the time
HARNESS(always) {
    int a = vf_nondet_i32(), e1 = 0, e2 = 0, e3 = 0;
    auto g = lazy([&](int p) { ++e1; return p ^ 5; }, [&] { return a; });
    auto h = lazy([&](int p) { ++e2; return p + 3; }, g);
    auto f = lazy([&](int p, int q) { ++e3; return vf_uf(2, p, q); }, h, g);
    for (int i = 1; i <= BOUND(300, 600); ++i) {
        CHECK("up to date", f() == vf_uf(2, (a ^ 5) + 3, a ^ 5));
        CHECK("each of them is evaluated once for each change", e1 == 2 * i && e2 == i && e3 == i);
        a = other_than(a);
    }
    COVER("end");
}

// the source changes all the time, the intermediate result never does
HARNESS(hidden) {
    int a = vf_nondet_i32(), e1 = 0, e2 = 0, e3 = 0;
    const int n = BOUND(300, 600), shown = vf_nondet_i32();
    auto g = lazy([&](int) { ++e1; return shown; }, [&] { return a; });
    auto h = lazy([&](int p) { ++e2; return p + 3; }, g);
    auto f = lazy([&](int p) { ++e3; return vf_uf(1, p); }, h);
    for (int i = 1; i <= n; ++i) {
        CHECK("up to date", f() == vf_uf(1, shown + 3));
        CHECK("only the innermost one is evaluated again", e1 == i && e2 == 1 && e3 == 1);
        a = other_than(a);
    }
    COVER("end");
}

// a counter, of which the intermediate results show less and less
HARNESS(counter) {
    int a = 0, e1 = 0, e2 = 0, e3 = 0, e4 = 0;
    const int b = vf_nondet_i32();
    auto g1 = lazy([&](int p) { ++e1; return p / 2; }, [&] { return a; });
    auto g2 = lazy([&](int p) { ++e2; return p / 3; }, g1);
    auto g3 = lazy([&](int p, int y) { ++e3; return p / 7 ^ y; }, g2, [&] { return b; });
    auto f = lazy([&](int p, int y) { ++e4; return (p ^ y << 8) + 1; }, g3, [&] { return a / 50; });
    int d4 = 1;
    for (int i = 0; i < BOUND(600, 1200); ++i) {
        CHECK("up to date", f() == (a / 42 ^ b ^ a / 50 << 8) + 1);
        CHECK("evaluated as often as the arguments change", e1 == i + 1 && e2 == i / 2 + 1 && e3 == i / 6 + 1);
        if (a && (a % 42 == 0 || a % 50 == 0)) ++d4;
        CHECK("once whenever any of them does", e4 == d4);
        ++a;
    }
    COVER("end");
}
