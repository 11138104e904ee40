// BOUNDS: the function and its dependencies given as lambda, function pointer, std::function and function object, of up to 40 bytes of state; 3 calls
#include "common/lazy_common.h"

struct Scale { // a function object with a large state, called as const
    long pad[3];
    int k;
    int *evals;
    int operator()(int x, int y) const { ++*evals; return vf_uf(1, x, y, k, int(pad[2])); }
};
struct Read { // non-const call operator
    char c;
    const int *p;
    int operator()() { return *p; }
};

HARNESS(objects) {
    int a = vf_nondet_i32(), b = vf_nondet_i32(), k = vf_nondet_i32(), evals = 0;
    long p = vf_nondet_i64();
    const Scale scale{ { 1, 2, p }, k, &evals };
    auto f = lazy(scale, Read{ 'x', &a }, [q = &b, c = 'y']() mutable noexcept { return *q; });
    EVALS("nothing is evaluated at construction", evals == 0);
    Model<int, int> m;
    for (int i = 0; i < HIST(3); ++i) {
        bool again = m.call(a, b);
        VALUE("function objects: up to date", f() == vf_uf(1, a, b, k, int(p)));
        EVALS("function objects: evaluated only when needed", evals == m.evaluations);
        if (i && again) COVER("changed");
        if (!again) COVER("same");
        a = vf_nondet_i32(), b = vf_nondet_i32();
    }
}

// stateless functions all the way, values from globals
static int global_a, global_evals;
HARNESS(stateless) {
    global_a = vf_nondet_i32(), global_evals = 0;
    auto g = lazy([](int x) { return vf_uf(1, x); }, [] { return global_a; });
    auto f = lazy([](int x, int y) { ++global_evals; return vf_uf(2, x, y); }, g, [] { return global_a; });
    EVALS("nothing is evaluated at construction", global_evals == 0);
    Model<int, int> m;
    for (int i = 0; i < HIST(3); ++i) {
        bool again = m.call(vf_uf(1, global_a), global_a);
        VALUE("stateless functions: up to date", f() == vf_uf(2, vf_uf(1, global_a), global_a));
        EVALS("stateless functions: evaluated only when needed", global_evals == m.evaluations);
        if (i && again) COVER("changed");
        if (!again) COVER("same");
        global_a = vf_nondet_i32();
    }
}

// the result does not depend on all of the values, and may stay the same
HARNESS(parity) {
    int a = vf_nondet_i32(), e1 = 0, e2 = 0;
    auto odd = lazy([&](int x) { ++e1; return (x & 1) != 0; }, [&] { return a; });
    auto f = lazy([&](bool o) { ++e2; return o ? 'o' : 'e'; }, odd);
    Model<int> m1;
    Model<bool> m2;
    for (int i = 0; i < BOUND(4, 6); ++i) {
        m1.call(a);
        bool again = m2.call((a & 1) != 0);
        VALUE("parity: up to date", f() == (a & 1 ? 'o' : 'e'));
        EVALS("parity: inner evaluated only when needed", e1 == m1.evaluations);
        EVALS("parity: outer evaluated only when needed", e2 == m2.evaluations);
        if (i && again) COVER("changed");
        if (!again) COVER("same");
        a = vf_nondet_i32();
    }
}
