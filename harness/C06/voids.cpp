// BOUNDS: functions without result, with zero to three dependencies of all kinds; 4 calls with arbitrary changes in between
#include "common/lazy_common.h"

HARNESS(none) {
    int runs = 0;
    auto f = lazy([&] { ++runs; });
    static_assert(std::is_void_v<decltype(f())>);
    CHECK("does not run at construction", runs == 0);
    for (int i = 0; i < HIST(3); ++i) f(), CHECK("runs once", runs == 1);
    COVER("end");
}

HARNESS(effects) {
    int a = vf_nondet_i32(), b = vf_nondet_i32(), runs = 0, seen_a = 0, seen_b = 0, seen_v = 0;
    const int v = vf_nondet_i32();
    auto g = lazy([&](int x) { return vf_uf(1, x); }, [&] { return b; });
    auto f = lazy([&](int x, int y, int z) { ++runs; seen_a = x, seen_b = y, seen_v = z; }, [&] { return a; }, g, v);
    static_assert(std::is_void_v<decltype(f())>);
    CHECK("does not run at construction", runs == 0);
    Model<int, int> m;
    for (int i = 0; i < HIST(3); ++i) {
        bool again = m.call(a, vf_uf(1, b));
        f();
        CHECK("runs only when a dependency changed", runs == m.evaluations);
        CHECK("has run with the current values", seen_a == a && seen_b == vf_uf(1, b) && seen_v == v);
        if (i && again) COVER("again");
        if (!again) COVER("not again");
        a = vf_nondet_i32(), b = vf_nondet_i32();
    }
}

// as a dependency: runs when its own dependencies change, but has no value that
// could change
HARNESS(dependency) {
    int a = vf_nondet_i32(), b = vf_nondet_i32(), runs = 0, evals = 0, order = 0;
    auto act = lazy([&](int) { ++runs; }, [&] { return a; });
    auto f = lazy([&](pigro::regular_void, int y) { ++evals; return vf_uf(1, y); }, act, [&] { return b; });
    CHECK("does not run at construction", runs == 0 && evals == 0);
    Model<int> ma, mf;
    for (int i = 0; i < HIST(3); ++i) {
        ma.call(a), mf.call(b);
        CHECK("up to date", f() == vf_uf(1, b));
        CHECK("the dependency runs only when its dependency changed", runs == ma.evaluations);
        CHECK("evaluated only when a value changed", evals == mf.evaluations);
        if (runs > evals) COVER("dependency only");
        if (runs < evals) COVER("function only");
        a = vf_nondet_i32(), b = vf_nondet_i32();
    }
}

// on top of each other
HARNESS(void_chain) {
    int a = vf_nondet_i32(), runs = 0, evals = 0, last = 0;
    auto f = lazy([&](int x) { ++runs; last = x; }, [&] { return a; });
    auto g = lazy([&](pigro::regular_void) { ++evals; }, f);
    static_assert(std::is_void_v<decltype(g())>);
    CHECK("does not run at construction", runs == 0 && evals == 0);
    Model<int> m;
    for (int i = 1; i < HIST(4); ++i) {
        m.call(a);
        g();
        CHECK("the dependency runs only when its dependency changed", runs == m.evaluations);
        CHECK("the dependency has run with the current value", last == a);
        CHECK("no value to react to: runs once", evals == 1);
        a = vf_nondet_i32();
    }
    COVER("end");
}
