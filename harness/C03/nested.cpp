// BOUNDS: functions below one or two levels of lazy functions, next to values; 3 to 4 calls
#include "common/lazy_common.h"

// also the functions that lazy dependencies depend on
HARNESS(below) {
    int a = vf_nondet_i32(), b = vf_nondet_i32(), na = 0, nb = 0;
    auto g = lazy([&](int x) { return vf_uf(1, x); }, [&] { ++na; return a; });
    auto f = lazy([&](int x, int y, int v) { return vf_uf(2, x, y, v); }, g, [&] { ++nb; return b; }, 3);
    CHECK("no dependency is evaluated at construction", na == 0 && nb == 0);
    for (int i = 1; i <= 3; ++i) {
        CHECK("up to date", f() == vf_uf(2, vf_uf(1, a), b, 3));
        CHECK("the nested dependency is evaluated once for each call", na == i);
        CHECK("the direct dependency is evaluated once for each call", nb == i);
        a = vf_nondet_i32(), b = vf_nondet_i32();
    }
    COVER("end");
}

HARNESS(below2) {
    int a = vf_nondet_i32(), na = 0;
    auto g = lazy([&](int x) { return vf_uf(1, x); }, [&] { ++na; return a; });
    auto h = lazy([&](int x) { return vf_uf(2, x); }, g);
    auto f = lazy([&](int x) { return vf_uf(3, x); }, h);
    for (int i = 1; i <= 3; ++i) {
        CHECK("up to date", f() == vf_uf(3, vf_uf(2, vf_uf(1, a))));
        CHECK("the dependency at the bottom is evaluated once for each call", na == i);
        a = vf_nondet_i32();
    }
    COVER("end");
}

// two copies of the same lazy function, each evaluated by itself
HARNESS(both_sides) {
    int a = vf_nondet_i32(), na = 0;
    auto g = lazy([&](int x) { return vf_uf(1, x); }, [&] { ++na; return a; });
    auto f = lazy([&](int x, int y) { return vf_uf(2, x, y); }, g, g);
    for (int i = 1; i <= 3; ++i) {
        CHECK("up to date", f() == vf_uf(2, vf_uf(1, a), vf_uf(1, a)));
        CHECK("the dependency is evaluated once for each of both", na == 2 * i);
        a = vf_nondet_i32();
    }
    COVER("end");
}
