// BOUNDS: chains of up to four lazy functions, diamonds, mixtures of values, functions and lazy functions as dependencies; 3 to 4 calls, with arbitrary changes in between
#include "common/lazy_common.h"

HARNESS(chain2) {
    int a = vf_nondet_i32(), e1 = 0, e2 = 0;
    auto g = lazy([&](int x) { ++e1; return vf_uf(1, x); }, [&] { return a; });
    auto f = lazy([&](int x) { ++e2; return vf_uf(2, x); }, g);
    EVALS("nothing is evaluated at construction", e1 == 0 && e2 == 0);
    Model<int> m1, m2;
    for (int i = 0; i < BOUND(4, 6); ++i) {
        m1.call(a);
        bool again = m2.call(vf_uf(1, a));
        VALUE("result is up to date", f() == vf_uf(2, vf_uf(1, a)));
        EVALS("the inner function is evaluated only when needed", e1 == m1.evaluations);
        EVALS("the outer function is evaluated only when needed", e2 == m2.evaluations);
        if (!again && e1 != e2) COVER("cut off");
        a = vf_nondet_i32();
    }
}

HARNESS(chain4) {
    int a = vf_nondet_i32(), e1 = 0, e2 = 0, e3 = 0, e4 = 0;
    auto f1 = lazy([&](int x) { ++e1; return vf_uf(1, x); }, [&] { return a; });
    auto f2 = lazy([&](int x) { ++e2; return vf_uf(2, x); }, f1);
    auto f3 = lazy([&](int x) { ++e3; return vf_uf(3, x); }, f2);
    auto f4 = lazy([&](int x) { ++e4; return vf_uf(4, x); }, f3);
    EVALS("nothing is evaluated at construction", e1 + e2 + e3 + e4 == 0);
    Model<int> m1, m2, m3, m4;
    for (int i = 0; i < BOUND(3, 4); ++i) {
        int r1 = vf_uf(1, a), r2 = vf_uf(2, r1), r3 = vf_uf(3, r2);
        m1.call(a);
        m2.call(r1);
        m3.call(r2);
        m4.call(r3);
        VALUE("result is up to date", f4() == vf_uf(4, r3));
        EVALS("level 1 is evaluated only when needed", e1 == m1.evaluations);
        EVALS("level 2 is evaluated only when needed", e2 == m2.evaluations);
        EVALS("level 3 is evaluated only when needed", e3 == m3.evaluations);
        EVALS("level 4 is evaluated only when needed", e4 == m4.evaluations);
        if (i && e1 > e4) COVER("cut off");
        a = vf_nondet_i32();
    }
}

HARNESS(diamond) {
    int a = vf_nondet_i32(), el = 0, er = 0, et = 0;
    auto src = [&] { return a; };
    auto l = lazy([&](int x) { ++el; return vf_uf(1, x); }, src);
    auto r = lazy([&](int x) { ++er; return vf_uf(2, x); }, src);
    auto t = lazy([&](int x, int y) { ++et; return vf_uf(3, x, y); }, l, r);
    Model<int> ml, mr;
    Model<int, int> mt;
    for (int i = 0; i < HIST(3); ++i) {
        ml.call(a);
        mr.call(a);
        mt.call(vf_uf(1, a), vf_uf(2, a));
        VALUE("no glitch", t() == vf_uf(3, vf_uf(1, a), vf_uf(2, a)));
        EVALS("left is evaluated only when needed", el == ml.evaluations);
        EVALS("right is evaluated only when needed", er == mr.evaluations);
        EVALS("top is evaluated only when needed", et == mt.evaluations);
        COVER("call");
        a = vf_nondet_i32();
    }
}

