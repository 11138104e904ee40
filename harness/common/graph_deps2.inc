// BOUNDS: lazy functions shared by reference and called on their own; every interleaving of 5 operations (change a source, call either function)
#include "common/lazy_common.h"

// a lazy function that is shared, by reference, by two others
HARNESS(shared) {
    int a = vf_nondet_i32(), eg = 0, e1 = 0, e2 = 0;
    auto g = lazy([&](int x) { ++eg; return vf_uf(1, x); }, [&] { return a; });
    auto ref = [&] { return g(); };
    auto f1 = lazy([&](int x) { ++e1; return vf_uf(2, x); }, ref);
    auto f2 = lazy([&](int x) { ++e2; return vf_uf(3, x); }, ref);
    Model<int> mg, m1, m2;
    for (int i = 0; i < BOUND(5, 7); ++i) {
        switch (vf_choose(4)) {
        case 0: a = vf_nondet_i32(); break;
        case 1:
            mg.call(a);
            m1.call(vf_uf(1, a));
            VALUE("first dependent is up to date", f1() == vf_uf(2, vf_uf(1, a)));
            COVER("first");
            break;
        case 2:
            mg.call(a);
            m2.call(vf_uf(1, a));
            VALUE("second dependent is up to date", f2() == vf_uf(3, vf_uf(1, a)));
            COVER("second");
            break;
        default:
            mg.call(a);
            VALUE("shared function is up to date", g() == vf_uf(1, a));
            COVER("shared");
        }
        EVALS("shared function is evaluated only when needed", eg == mg.evaluations);
        EVALS("first dependent is evaluated only when needed", e1 == m1.evaluations);
        EVALS("second dependent is evaluated only when needed", e2 == m2.evaluations);
    }
}

// a lazy dependency is copied: calling the original in between is of no influence
HARNESS(interleaved) {
    int a = vf_nondet_i32(), eg = 0, ef = 0;
    auto g = lazy([&](int x) { ++eg; return vf_uf(1, x); }, [&] { return a; });
    auto f = lazy([&](int x) { ++ef; return vf_uf(2, x); }, g);
    Model<int> mg, mi, mf;
    for (int i = 0; i < BOUND(5, 7); ++i) {
        switch (vf_choose(3)) {
        case 0: a = vf_nondet_i32(); break;
        case 1:
            mg.call(a);
            VALUE("the original is up to date", g() == vf_uf(1, a));
            COVER("original");
            break;
        default:
            mi.call(a);
            mf.call(vf_uf(1, a));
            VALUE("the dependent is up to date", f() == vf_uf(2, vf_uf(1, a)));
            COVER("dependent");
        }
        EVALS("inner functions are evaluated only when needed", eg == mg.evaluations + mi.evaluations);
        EVALS("the dependent is evaluated only when needed", ef == mf.evaluations);
    }
}

// no dependencies at all: evaluated once
HARNESS(nodeps) {
    int evals = 0, r = vf_nondet_i32();
    const int r0 = r;
    auto f = lazy([&] { ++evals; return r; });
    EVALS("nothing is evaluated at construction", evals == 0);
    for (int i = 0; i < HIST(4); ++i) {
        VALUE("the result of the first call", f() == r0);
        EVALS("evaluated once", evals == 1);
        r = vf_nondet_i32();
    }
    COVER("end");
}

// only values: evaluated once
HARNESS(values) {
    int evals = 0;
    int a = vf_nondet_i32(), b = vf_nondet_i32();
    long c = vf_nondet_i64();
    const int a0 = a, b0 = b;
    const long c0 = c;
    auto f = lazy([&](int x, const int &y, long z) { ++evals; return vf_uf(1, x, y, z, z >> 32); }, a, b, c);
    EVALS("nothing is evaluated at construction", evals == 0);
    for (int i = 0; i < HIST(4); ++i) {
        a = vf_nondet_i32();
        b = vf_nondet_i32();
        c = vf_nondet_i64();
        VALUE("f(values given at construction)", f() == vf_uf(1, a0, b0, c0, c0 >> 32));
        EVALS("evaluated once", evals == 1);
    }
    COVER("end");
}

// three levels, each with a source of its own
HARNESS(tree) {
    int a = vf_nondet_i32(), b = vf_nondet_i32(), e1 = 0, e2 = 0;
    auto g = lazy([&](int x) { ++e1; return vf_uf(1, x); }, [&] { return a; });
    auto f = lazy([&](int x, int y) { ++e2; return vf_uf(2, x, y); }, g, [&] { return b; });
    Model<int> mg;
    Model<int, int> mf;
    for (int i = 0; i < BOUND(3, 5); ++i) {
        mg.call(a);
        mf.call(vf_uf(1, a), b);
        VALUE("result is up to date", f() == vf_uf(2, vf_uf(1, a), b));
        EVALS("inner", e1 == mg.evaluations);
        EVALS("outer", e2 == mf.evaluations);
        a = vf_nondet_i32();
        b = vf_nondet_i32();
    }
    COVER("end");
}
