// BOUNDS: after an exception, the same values: evaluated again, at most once per call; values with an allocation that throw while being copied or compared; 3 calls
#include "common/lazy_common.h"

struct Failure {};

// the failed evaluation does not count: the next call tries again, once
HARNESS(again) {
    int a = vf_nondet_i32(), evals = 0, done = 0, calls = 0;
    bool fail = vf_nondet_bool();
    auto f = lazy([&](int x) { ++evals; if (fail) throw Failure{}; ++done; return vf_uf(1, x); }, [&] { return a; });
    for (int i = 0; i < HIST(3); ++i) {
        const int before = evals;
        bool thrown = false;
        try {
            CHECK("never an outdated value", f() == vf_uf(1, a));
        } catch (Failure) {
            thrown = true;
        }
        CHECK("at most one evaluation for a call", evals - before <= 1);
        CHECK("an exception only from an evaluation", !thrown || (fail && evals == before + 1));
        if (thrown) {
            fail = false;
            const int tried = evals;
            CHECK("the value is there, once the failure is gone", f() == vf_uf(1, a));
            CHECK("that takes one evaluation", evals == tried + 1);
            CHECK("and is remembered", f() == vf_uf(1, a) && evals == tried + 1);
            COVER("recovered");
        } else COVER("no failure");
        a = vf_nondet_i32();
        fail = vf_nondet_bool();
    }
}

// values that throw while being copied or compared
static int countdown;
struct Fragile {
    int v;
    explicit Fragile(int v) : v{ v } {}
    Fragile(const Fragile &o) : v{ o.v } { if (countdown && --countdown == 0) throw Failure{}; }
    Fragile &operator=(const Fragile &o) { if (countdown && --countdown == 0) throw Failure{}; v = o.v; return *this; }
    bool operator==(const Fragile &o) const { if (countdown && --countdown == 0) throw Failure{}; return v == o.v; }
};
HARNESS(fragile) {
    countdown = 0;
    int a = vf_nondet_i32();
    auto f = lazy([&](const Fragile &x) { return Fragile{ vf_uf(1, x.v) }; }, [&] { return Fragile{ a }; });
    if (vf_nondet_bool()) f();
    a = vf_nondet_i32();
    countdown = vf_pick(BOUND(24, 40));
    try {
        auto r = f();
        CHECK("never an outdated value", r.v == vf_uf(1, a));
        COVER("value");
    } catch (Failure) {
        COVER("exception");
    }
    countdown = 0;
    if (vf_nondet_bool()) a = vf_nondet_i32();
    CHECK("up to date afterwards", f().v == vf_uf(1, a));
}
