// BOUNDS: dependencies and functions that count, with an arbitrary initial state and step, by value and through std::function; 4 calls
#include "common/lazy_common.h"

// a dependency that changes with every call
HARNESS(counter) {
    int start = vf_nondet_i32(), step = vf_nondet_i32(), runs = 0;
    auto f = lazy([&](int x) { ++runs; return vf_uf(1, x); }, [n = start, step]() mutable { int r = n; n = int(unsigned(n) + step); return r; });
    int now = start;
    for (int i = 1; i <= 4; ++i) {
        CHECK("the dependency keeps its state", f() == vf_uf(1, now));
        CHECK("evaluated for each change", runs == (step == 0 ? 1 : i));
        now = int(unsigned(now) + step);
    }
    if (step == 0) COVER("constant");
    else COVER("changing");
}

// state of the function itself
HARNESS(own_state) {
    int a = vf_nondet_i32(), start = vf_nondet_i32(), before = 0;
    auto f = lazy([n = start](int x) mutable { n = vf_uf(1, n, x); return n; }, [&] { return a; });
    int n = start;
    Model<int> m;
    for (int i = 0; i < HIST(4); ++i) {
        if (m.call(a)) n = vf_uf(1, n, a);
        CHECK("the function keeps its state in between evaluations", f() == n);
        before = a;
        a = vf_nondet_i32();
        if (a != before) COVER("changed");
    }
}

struct Toggle {
    bool on;
    long pad = 7;
    bool operator()() { return on = !on; }
};
// two counting dependencies next to each other, one of which below a lazy function
HARNESS(counters) {
    int start = vf_nondet_i32();
    bool on = vf_nondet_bool();
    auto count = [n = start]() mutable { return n = int(unsigned(n) + 1); };
    auto g = lazy([](bool b) { return b ? 1 : 0; }, Toggle{ on });
    auto f = lazy([](int a, int b, int c) { return vf_uf(1, a, b, c); }, count, g, count);
    unsigned n = start;
    for (int i = 0; i < HIST(4); ++i) {
        ++n;
        on = !on;
        CHECK("all of the dependencies keep their state", f() == vf_uf(1, int(n), on, int(n)));
    }
    COVER("end");
}

// the original objects are not affected
HARNESS(captured) {
    int v = vf_nondet_i32();
    const int v0 = v;
    std::function<int()> dep = [n = v]() mutable { return n = vf_uf(1, n); };
    auto f = lazy([](int a, int b) { return vf_uf(2, a, b); }, v, dep);
    int n = v0;
    for (int i = 0; i < HIST(3); ++i) {
        v = vf_nondet_i32();
        n = vf_uf(1, n);
        CHECK("values are those at construction, functions are copies", f() == vf_uf(2, v0, n));
        if (i == 1) dep = nullptr;
    }
    COVER("end");
}
