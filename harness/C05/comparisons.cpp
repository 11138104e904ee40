// BOUNDS: values that count their comparisons, as plain value, through a function, a lazy function, and as result; chains of up to 3; 4 calls with arbitrary changes in between
#include "common/lazy_common.h"

static int compared[8];
// Counts its comparisons, for each origin
template<int origin>
struct Spy {
    int v = 0;
    bool operator==(const Spy &other) const { ++compared[origin]; return v == other.v; }
};
static void reset() { for (int &c : compared) c = 0; }

HARNESS(plain) {
    reset();
    int a = vf_nondet_i32();
    auto f = lazy([&](const Spy<0> &x, Spy<1> y) { return Spy<2>{ vf_uf(1, x.v, y.v) }; }, Spy<0>{ vf_nondet_i32() }, [&] { return Spy<1>{ a }; });
    CHECK("nothing is compared at construction", compared[0] + compared[1] + compared[2] == 0);
    bool first = true;
    for (int i = 0; i < HIST(4); ++i) {
        reset();
        const int before = a;
        if (i) a = vf_nondet_i32();
        f();
        CHECK("plain values are never compared", compared[0] == 0);
        CHECK("the value of a function is compared once, with the previous one", compared[1] == (first ? 0 : 1));
        CHECK("the result is compared only after an evaluation", compared[2] <= (first || a == before ? 0 : 1));
        if (!first && a == before) COVER("same");
        if (!first && a != before) COVER("changed");
        first = false;
    }
}

// f is not evaluated, and the value of the lazy function not compared, unless
// the latter has been evaluated
HARNESS(behind_lazy) {
    reset();
    int a = vf_nondet_i32(), runs = 0;
    auto g = lazy([&](int x) { ++runs; return Spy<0>{ vf_uf(1, x) }; }, [&] { return a; });
    auto f = lazy([&](Spy<0> x) { return Spy<1>{ vf_uf(2, x.v) }; }, g);
    for (int i = 0; i < HIST(4); ++i) {
        reset();
        const int before = a, runs_before = runs;
        if (i) a = vf_nondet_i32();
        f();
        const bool evaluated = runs != runs_before;
        CHECK("the lazy function is evaluated only when needed", evaluated == (i == 0 || a != before));
        CHECK("a lazy function that is not evaluated is not compared", evaluated || compared[0] == 0);
        CHECK("a lazy function that is evaluated is compared once", compared[0] <= 1);
        CHECK("without a change, nothing else is compared", compared[1] <= (i && evaluated && vf_uf(1, a) != vf_uf(1, before) ? 1 : 0));
        if (evaluated && compared[1]) COVER("compared both");
        if (evaluated && i && !compared[1]) COVER("cut off");
        if (!evaluated) COVER("nothing compared");
    }
}
