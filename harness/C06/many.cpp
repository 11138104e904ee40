// BOUNDS: functions without result, several of them as dependencies of the same function, in all positions; 3 calls
#include "common/lazy_common.h"

// no value, so never a reason to evaluate
HARNESS(between) {
    int a = vf_nondet_i32(), b = vf_nondet_i32(), na = 0, nb = 0, n = 0;
    using V = pigro::regular_void;
    auto f = lazy([&](int x) { ++na; }, [&] { return a; });
    auto g = lazy([&](int x) { ++nb; }, [&] { return b; });
    auto h = lazy([&](V, int x, V, int y, V) { ++n; return vf_uf(1, x, y); }, f, [&] { return b & 1; }, g, 5, f);
    Model<int> ma, mb, mh;
    for (int i = 0; i < HIST(3); ++i) {
        ma.call(a), mb.call(b), mh.call(b & 1);
        CHECK("up to date", h() == vf_uf(1, b & 1, 5));
        CHECK("the dependencies run when needed", na == 2 * ma.evaluations && nb == mb.evaluations);
        CHECK("evaluated only because of a value", n == mh.evaluations);
        a = vf_nondet_i32(), b = vf_nondet_i32();
    }
    COVER("end");
}

// three on top of each other
HARNESS(deep) {
    int a = vf_nondet_i32(), b = vf_nondet_i32(), n1 = 0, n2 = 0, n3 = 0;
    using V = pigro::regular_void;
    auto f = lazy([&](int) { ++n1; }, [&] { return a; });
    auto g = lazy([&](V, int) { ++n2; }, f, [&] { return b; });
    auto h = lazy([&](V) { ++n3; }, g);
    Model<int> m1, m2;
    for (int i = 0; i < HIST(3); ++i) {
        m1.call(a), m2.call(b);
        h();
        CHECK("the first runs when needed", n1 == m1.evaluations);
        CHECK("the second runs when needed", n2 == m2.evaluations);
        CHECK("the third runs once", n3 == 1);
        a = vf_nondet_i32(), b = vf_nondet_i32();
    }
    COVER("end");
}
