// BOUNDS: the function, a function dependency or a lazy dependency throws at any subset of 4 calls, with arbitrary changes in between
#include "common/lazy_common.h"

struct Failure {
    int code;
};

// the function itself throws
HARNESS(function) {
    int a = vf_nondet_i32();
    bool fail = false;
    auto f = lazy([&](int x) { if (fail) throw Failure{ x }; return vf_uf(1, x); }, [&] { return a; });
    for (int i = 0; i < HIST(4); ++i) {
        fail = vf_nondet_bool();
        try {
            CHECK("never an outdated value", f() == vf_uf(1, a));
            COVER("value");
        } catch (const Failure &e) {
            CHECK("the exception that has been thrown, for the current value", fail && e.code == a);
            COVER("exception");
        }
        a = vf_nondet_i32();
    }
}

// a dependency throws
HARNESS(dependency) {
    int a = vf_nondet_i32(), b = vf_nondet_i32();
    bool fail = false;
    auto f = lazy([&](int x, int y) { return vf_uf(1, x, y); }, [&] { return a; }, [&] { if (fail) throw Failure{ 7 }; return b; });
    for (int i = 0; i < HIST(4); ++i) {
        fail = vf_nondet_bool();
        try {
            CHECK("never an outdated value", f() == vf_uf(1, a, b));
            CHECK("a failing dependency is not ignored", !fail);
            COVER("value");
        } catch (const Failure &e) {
            CHECK("the exception that has been thrown", fail && e.code == 7);
            COVER("exception");
        }
        a = vf_nondet_i32(), b = vf_nondet_i32();
    }
}

// a lazy dependency throws, between others
HARNESS(lazy_dependency) {
    int a = vf_nondet_i32(), b = vf_nondet_i32();
    bool fail = false;
    auto g = lazy([&](int x) { if (fail) throw Failure{ x }; return vf_uf(1, x); }, [&] { return a; });
    auto f = lazy([&](int x, int y, int z) { return vf_uf(2, x, y, z); }, [&] { return b; }, g, [&] { return b; });
    for (int i = 0; i < HIST(3); ++i) {
        fail = vf_nondet_bool();
        try {
            CHECK("never an outdated value", f() == vf_uf(2, b, vf_uf(1, a), b));
            COVER("value");
        } catch (const Failure &e) {
            CHECK("the exception that has been thrown, for the current value", fail && e.code == a);
            COVER("exception");
        }
        a = vf_nondet_i32(), b = vf_nondet_i32();
    }
}
