// BOUNDS: values that count their comparisons, at each level of a chain of 3, and for two lazy functions next to each other; 3 calls with arbitrary changes in between
#include "common/lazy_common.h"

static int compared[8];
template<int origin>
struct Spy {
    int v = 0;
    bool operator==(const Spy &other) const { ++compared[origin]; return v == other.v; }
};
static void reset() { for (int &c : compared) c = 0; }

HARNESS(chain) {
    reset();
    int a = vf_nondet_i32();
    auto f1 = lazy([&](Spy<0> x) { return Spy<1>{ vf_uf(1, x.v) }; }, [&] { return Spy<0>{ a }; });
    auto f2 = lazy([&](Spy<1> x) { return Spy<2>{ vf_uf(2, x.v) }; }, f1);
    auto f3 = lazy([&](Spy<2> x) { return Spy<3>{ vf_uf(3, x.v) }; }, f2);
    f3();
    CHECK("nothing to compare with, at first", compared[0] + compared[1] + compared[2] + compared[3] == 0);
    for (int i = 1; i < HIST(3); ++i) {
        reset();
        const int b = a;
        a = vf_nondet_i32();
        f3();
        const int b1 = vf_uf(1, b), a1 = vf_uf(1, a), b2 = vf_uf(2, b1), a2 = vf_uf(2, a1);
        CHECK("the source is compared once", compared[0] == 1);
        CHECK("level 1 is compared only if evaluated", compared[1] <= (a != b));
        CHECK("level 2 is compared only if evaluated", compared[2] <= (a != b && a1 != b1));
        CHECK("level 3 is compared only if evaluated", compared[3] <= (a != b && a1 != b1 && a2 != b2));
        if (compared[3]) COVER("all");
        if (!compared[1]) COVER("none");
        if (compared[1] && !compared[2]) COVER("cut off");
    }
}

HARNESS(siblings) {
    reset();
    int a = vf_nondet_i32(), b = vf_nondet_i32();
    auto g = lazy([&](int x) { return Spy<0>{ vf_uf(1, x) }; }, [&] { return a; });
    auto h = lazy([&](int x) { return Spy<1>{ vf_uf(2, x) }; }, [&] { return b; });
    auto f = lazy([&](Spy<0> x, const Spy<1> &y, Spy<2> z) { return vf_uf(3, x.v, y.v, z.v); }, g, h, Spy<2>{ 5 });
    f();
    CHECK("nothing to compare with, at first", compared[0] + compared[1] + compared[2] == 0);
    for (int i = 1; i < HIST(3); ++i) {
        reset();
        const int a0 = a, b0 = b;
        a = vf_nondet_i32(), b = vf_nondet_i32();
        f();
        CHECK("the first is compared only if evaluated", compared[0] <= (a != a0));
        CHECK("the second is compared only if evaluated", compared[1] <= (b != b0));
        CHECK("the plain value is never compared", compared[2] == 0);
        if (compared[0] && !compared[1]) COVER("one of them");
        if (compared[0] && compared[1]) COVER("both");
        if (!compared[0] && !compared[1]) COVER("none");
    }
}
