// BOUNDS: three lazy functions as dependencies of one; chains with a side input at each level; results that hide changes (parity, clamping, comparison); 3 calls with arbitrary changes in between
#include "common/lazy_common.h"

HARNESS(fan_in) {
    int v[3] = { vf_nondet_i32(), vf_nondet_i32(), vf_nondet_i32() }, e[3] = {}, ef = 0;
    auto g = [&](int k) { return lazy([&e, k](int x) { ++e[k]; return vf_uf(1, k, x); }, [&v, k] { return v[k]; }); };
    auto f = lazy([&](int x, int y, int z) { ++ef; return vf_uf(2, x, y, z); }, g(0), g(1), g(2));
    Model<int> m[3];
    Model<int, int, int> mf;
    for (int i = 0; i < HIST(3); ++i) {
        int r[3];
        for (int k = 0; k < 3; ++k) m[k].call(v[k]), r[k] = vf_uf(1, k, v[k]);
        bool again = mf.call(r[0], r[1], r[2]);
        CHECK("up to date", f() == vf_uf(2, r[0], r[1], r[2]));
        for (int k = 0; k < 3; ++k) CHECK("a dependency is evaluated only if its own source changed", e[k] == m[k].evaluations);
        CHECK("evaluated only if the value of a dependency changed", ef == mf.evaluations);
        if (i && !again && e[0] > ef) COVER("cut off");
        if (i && again) COVER("changed");
        v[vf_pick(3)] = vf_nondet_i32();
    }
}

// a lazy function that hides changes, and another one on top of it
HARNESS(clamp) {
    int a = vf_nondet_i32(), e1 = 0, e2 = 0, e3 = 0;
    auto g = lazy([&](int x) { ++e1; return x < 0 ? 0 : x > 10 ? 10 : x; }, [&] { return a; });
    auto h = lazy([&](int x) { ++e2; return x >= 5; }, g);
    auto f = lazy([&](bool b) { ++e3; return b ? 'y' : 'n'; }, h);
    Model<int> m1, m2;
    Model<bool> m3;
    for (int i = 0; i < HIST(3); ++i) {
        int c = a < 0 ? 0 : a > 10 ? 10 : a;
        m1.call(a), m2.call(c), m3.call(c >= 5);
        CHECK("up to date", f() == (c >= 5 ? 'y' : 'n'));
        CHECK("level 1 is evaluated only if needed", e1 == m1.evaluations);
        CHECK("level 2 is evaluated only if needed", e2 == m2.evaluations);
        CHECK("level 3 is evaluated only if needed", e3 == m3.evaluations);
        if (e1 > e2) COVER("cut off at level 2");
        if (e2 > e3) COVER("cut off at level 3");
        a = vf_nondet_i32();
    }
}
