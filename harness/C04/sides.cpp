// BOUNDS: chains of three lazy functions with a side input at each level, lazy functions shared by both sides of a diamond with a join; 3 calls with arbitrary changes in between
#include "common/lazy_common.h"

HARNESS(side_inputs) {
    int a = vf_nondet_i32(), b = vf_nondet_i32(), c = vf_nondet_i32(), e1 = 0, e2 = 0, e3 = 0;
    auto g = lazy([&](int x) { ++e1; return vf_uf(1, x); }, [&] { return a; });
    auto h = lazy([&](int x, int y) { ++e2; return vf_uf(2, x, y); }, [&] { return b; }, g);
    auto f = lazy([&](int x, int y) { ++e3; return vf_uf(3, x, y); }, h, [&] { return c; });
    Model<int> m1;
    Model<int, int> m2, m3;
    for (int i = 0; i < HIST(3); ++i) {
        int r1 = vf_uf(1, a), r2 = vf_uf(2, b, r1);
        m1.call(a), m2.call(b, r1), m3.call(r2, c);
        CHECK("up to date", f() == vf_uf(3, r2, c));
        CHECK("level 1 is evaluated only if needed", e1 == m1.evaluations);
        CHECK("level 2 is evaluated only if needed", e2 == m2.evaluations);
        CHECK("level 3 is evaluated only if needed", e3 == m3.evaluations);
        if (e1 > e2 && e2 > e3) COVER("cut off twice");
        switch (vf_choose(3)) {
        case 0: a = vf_nondet_i32(); break;
        case 1: b = vf_nondet_i32(); break;
        default: c = vf_nondet_i32();
        }
    }
}

// the same lazy function below both sides
HARNESS(shared_below) {
    int a = vf_nondet_i32(), e0 = 0, el = 0, er = 0, et = 0;
    auto s = lazy([&](int x) { ++e0; return vf_uf(1, x); }, [&] { return a; });
    auto l = lazy([&](int x) { ++el; return vf_uf(2, x); }, s);
    auto r = lazy([&](int x) { ++er; return vf_uf(3, x); }, s);
    auto t = lazy([&](int x, int y) { ++et; return vf_uf(4, x, y); }, l, r);
    Model<int> m0, m1;
    Model<int, int> mt;
    for (int i = 0; i < HIST(3); ++i) {
        int r0 = vf_uf(1, a), rl = vf_uf(2, r0), rr = vf_uf(3, r0);
        m0.call(a), m1.call(r0), mt.call(rl, rr);
        CHECK("no glitch", t() == vf_uf(4, rl, rr));
        CHECK("the copies at the bottom are evaluated only if needed", e0 == 2 * m0.evaluations);
        CHECK("the left side is evaluated only if needed", el == m1.evaluations);
        CHECK("the right side is evaluated only if needed", er == m1.evaluations);
        CHECK("the top is evaluated only if needed", et == mt.evaluations);
        if (el > et) COVER("cut off");
        a = vf_nondet_i32();
    }
}
