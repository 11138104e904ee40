// BOUNDS: a mixture of values and functions; functions without result; copies; calls of a shared lazy function in between; 60 (thorough: 300) calls without changes
#include "common/spy.h"

HARNESS(mixture) {
    reset();
    unsigned char a = any_key(), b = any_key();
    auto f = lazy([](Spy<0>, const Spy<1> &x, Spy<2>, Spy<3> y, const Spy<4> &, Spy<5>) { return Spy<6>{ vf_uf(1, x.v, y.v) }; },
      Spy<0>{ 1 }, [&] { return Spy<1>{ a }; }, Spy<2>{ 2 }, [&] { return Spy<3>{ b }; }, Spy<4>{ 3 }, Spy<5>{ 4 });
    f();
    CHECK("nothing to compare with, at first", all_compared() == 0);
    for (int i = 1; i < HIST(3); ++i) {
        reset();
        const unsigned char a0 = a, b0 = b;
        a = any_key(), b = any_key();
        f();
        CHECK("functions are compared once", compared[1] == 1 && compared[3] == 1);
        CHECK("plain values are never compared", compared[0] + compared[2] + compared[4] + compared[5] == 0);
        CHECK("the result is compared at most if evaluated", compared[6] <= (a != a0 || b != b0));
    }
    COVER("end");
}

HARNESS(no_result) {
    reset();
    unsigned char a = any_key();
    int runs = 0;
    auto g = lazy([](Spy<0> x) { return Spy<1>{ x.v & 1 }; }, [&] { return Spy<0>{ a }; });
    auto f = lazy([&](Spy<1>, Spy<2>) { ++runs; }, g, Spy<2>{ 3 });
    f();
    CHECK("nothing to compare with, at first", all_compared() == 0);
    for (int i = 1; i < HIST(4); ++i) {
        reset();
        const unsigned char a0 = a;
        a = any_key();
        f();
        CHECK("the function is compared once", compared[0] == 1);
        CHECK("the lazy function is compared at most if evaluated", compared[1] <= (a != a0));
        CHECK("the plain value is never compared", compared[2] == 0);
    }
    COVER("end");
}

HARNESS(copies) {
    reset();
    unsigned char a = any_key();
    auto f = lazy([](Spy<0> x, Spy<1>) { return Spy<2>{ vf_uf(1, x.v) }; }, [&] { return Spy<0>{ a }; }, Spy<1>{ 1 });
    const bool warm = vf_nondet_bool();
    if (warm) f();
    auto c = f;
    auto d = std::move(f);
    CHECK("copying and moving compare nothing", all_compared() == 0);
    const unsigned char a0 = a;
    a = any_key();
    for (int i = 0; i < 2; ++i) {
        reset();
        (i ? c : d)();
        CHECK("the copy compares with what it has copied", compared[0] == warm && compared[1] == 0 && compared[2] <= (warm && a != a0));
        reset();
        (i ? c : d)();
        CHECK("and afterwards with its own value", compared[0] == 1 && compared[1] == 0 && compared[2] == 0);
    }
    COVER("end");
}

HARNESS(unchanged) {
    reset();
    unsigned char a = any_key();
    auto g = lazy([](Spy<0> x) { return Spy<1>{ vf_uf(1, x.v) }; }, [&] { return Spy<0>{ a }; });
    auto f = lazy([](Spy<1> x, Spy<2>) { return Spy<3>{ vf_uf(2, x.v) }; }, g, Spy<2>{ 1 });
    f();
    for (int i = 1; i < BOUND(60, 300); ++i) {
        reset();
        f();
        CHECK("only the function is compared", compared[0] == 1 && all_compared() == 1);
    }
    COVER("end");
}

// each evaluation leads to one comparison, also for a lazy function called on its own
HARNESS(on_its_own) {
    reset();
    unsigned char a = any_key();
    auto g = lazy([](Spy<0> x) { return Spy<1>{ vf_uf(1, x.v) }; }, [&] { return Spy<0>{ a }; });
    auto f = lazy([](Spy<1> x) { return Spy<2>{ vf_uf(2, x.v) }; }, g);
    std::optional<unsigned char> lg, lf;
    for (int i = 0; i < HIST(4); ++i) {
        reset();
        if (vf_nondet_bool()) {
            g();
            CHECK("compares with its own values", compared[0] == lg.has_value() && compared[1] <= (lg && *lg != a) && compared[2] == 0);
            lg = a;
        } else {
            f();
            CHECK("compares with the values of its copy", compared[0] == lf.has_value() && compared[1] <= (lf && *lf != a) && compared[2] <= (lf && *lf != a && vf_uf(1, *lf) != vf_uf(1, a)));
            lf = a;
        }
        a = any_key();
    }
    COVER("end");
}
