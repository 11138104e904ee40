// BOUNDS: exceptions caught by another lazy function, or by a dependency; while another exception is being handled; copies made after a failure; functions without result; 3 calls
#include "common/lazy_common.h"

struct Failure {};

// a dependency that handles the exception of a lazy function it calls
HARNESS(handled) {
    int a = vf_nondet_i32(), e = 0;
    bool fail = false;
    auto g = lazy([&](int x) { if (fail) throw Failure{}; return vf_uf(1, x); }, [&] { return a; });
    auto f = lazy([&](int x) { ++e; return vf_uf(2, x); }, [&] { try { return g(); } catch (Failure) { return -1; } });
    Model<int> m;
    bool pending = true; // g has no value for the current a
    int known = 0;
    for (int i = 0; i < HIST(3); ++i) {
        fail = vf_nondet_bool();
        if (i && known != a) pending = true;
        const int now = pending && fail ? -1 : vf_uf(1, a);
        if (!(pending && fail)) pending = false, known = a;
        m.call(now);
        CHECK("up to date", f() == vf_uf(2, now));
        CHECK("evaluated when needed", e == m.evaluations);
        a = vf_nondet_i32();
    }
    COVER("end");
}

// fails within a destructor that runs because of another exception
template<typename F>
struct AtExit {
    F f;
    ~AtExit() { f(); }
};
template<typename F>
AtExit(F) -> AtExit<F>;
HARNESS(within_unwinding) {
    int a = vf_nondet_i32(), e = 0;
    bool fail = false, thrown = false;
    auto f = lazy([&](int x) { ++e; if (fail) throw Failure{}; return vf_uf(1, x); }, [&] { return a; });
    if (vf_nondet_bool()) f();
    a = vf_nondet_i32();
    const bool other = vf_nondet_bool();
    fail = vf_nondet_bool();
    try {
        AtExit guard{ [&] {
            try {
                CHECK("never an outdated value", f() == vf_uf(1, a));
            } catch (Failure) {
                thrown = true;
            }
        } };
        if (other) throw 1;
    } catch (int) {
        COVER("unwinding");
    }
    fail = false;
    const int before = e;
    CHECK("up to date afterwards", f() == vf_uf(1, a));
    CHECK("evaluated once, if there was a failure", e - before == thrown);
    if (thrown && other) COVER("failed while unwinding");
}

HARNESS(copies) {
    int a = vf_nondet_i32(), e = 0;
    bool fail = false;
    auto f = lazy([&](int x) { ++e; if (fail) throw Failure{}; return vf_uf(1, x); }, [&] { return a; });
    if (vf_nondet_bool()) f();
    a = vf_nondet_i32();
    fail = vf_nondet_bool();
    bool thrown = false;
    try {
        f();
    } catch (Failure) {
        thrown = true;
    }
    auto c = f;
    fail = false;
    e = 0;
    CHECK("the copy is up to date", c() == vf_uf(1, a) && e == thrown);
    CHECK("the original is up to date", f() == vf_uf(1, a) && e == 2 * thrown);
    fail = true;
    CHECK("both remember", c() == vf_uf(1, a) && f() == vf_uf(1, a));
    COVER("end");
}

HARNESS(no_result) {
    int a = vf_nondet_i32(), e = 0, done = 0;
    bool fail = false;
    auto g = lazy([&](int x) { ++e; if (fail) throw Failure{}; ++done; }, [&] { return a; });
    auto f = lazy([&](pigro::regular_void, int y) { return vf_uf(1, y); }, g, [&] { return a; });
    bool clean = false;
    int last = 0;
    for (int i = 0; i < HIST(3); ++i) {
        fail = vf_nondet_bool();
        const int before = e, d = done;
        const bool due = !clean || a != last;
        try {
            CHECK("never an outdated value", f() == vf_uf(1, a));
            CHECK("has run if needed", done - d == due && e - before == due);
            clean = true;
        } catch (Failure) {
            CHECK("only an evaluation throws", due && fail && e - before == 1);
            clean = false;
        }
        last = a;
        a = vf_nondet_i32();
    }
    COVER("end");
}

// a failure at any point of a longer history
HARNESS(long_history) {
    const int n = BOUND(16, 40), t = vf_pick(n);
    int a = vf_nondet_i32(), e = 0;
    bool fail = false;
    auto f = lazy([&](int x) { ++e; if (fail) throw Failure{}; return vf_uf(1, x); }, [&] { return a; });
    for (int i = 0; i < n; ++i) {
        if (i == t) {
            const int old = a;
            a = vf_nondet_i32();
            vf_assume(a != old);
            fail = true;
            try {
                f();
                CHECK("a failure is not ignored", false);
            } catch (Failure) {}
            fail = false;
            CHECK("tried once", e == 1 + (i > 0));
            if (vf_nondet_bool()) a = old;
            e = 0;
        }
        CHECK("never an outdated value", f() == vf_uf(1, a));
        CHECK("evaluated once", e == 1);
    }
    COVER("end");
}
