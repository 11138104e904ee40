// BOUNDS: histories of 18 calls in which the value changes to any other one before any two of them, and of 300 calls in which it does so before every call (thorough: 40 and 600)
#include "common/lazy_common.h"

static int other_than(int x) {
    int v = vf_nondet_i32();
    vf_assume(v != x);
    return v;
}

HARNESS(two_changes) {
    const int n = BOUND(18, 40), t = vf_pick(n), u = vf_pick(n);
    if (u < t) return;
    int a = vf_nondet_i32(), e = 0, x = 1;
    auto f = lazy([&](int p) { ++e; x = vf_uf(1, p); return x; }, [&] { return a; });
    for (int i = 0; i < n; ++i) {
        if (i == t || i == u) a = other_than(a);
        VALUE("up to date", f() == vf_uf(1, a));
        EVALS("evaluated only when needed", e == 1 + (i >= t && t > 0) + (i >= u && u > t));
    }
    COVER("end");
}

HARNESS(always_changes) {
    int a = vf_nondet_i32(), b = 0, e = 0, o = 0;
    auto g = lazy([&](int p) { ++e; return p ^ 5; }, [&] { return a; });
    auto f = lazy([&](int p, int q) { ++o; return vf_uf(2, p, q); }, g, [&] { return b; });
    for (int i = 1; i <= BOUND(300, 600); ++i) {
        VALUE("up to date", f() == vf_uf(2, a ^ 5, b));
        VALUE("up to date, once more", f() == vf_uf(2, a ^ 5, b));
        EVALS("evaluated once for each change", e == i && o == i);
        a = other_than(a);
        ++b;
    }
    COVER("end");
}

// back and forth between two values
HARNESS(alternating) {
    const int x = vf_nondet_i32(), y = other_than(x);
    int a = x, e = 0;
    auto f = lazy([&](int p) { ++e; return vf_uf(1, p); }, [&] { return a; });
    for (int i = 1; i <= BOUND(300, 1200); ++i) {
        VALUE("up to date", f() == vf_uf(1, a));
        EVALS("evaluated once for each change", e == i);
        a = a == x ? y : x;
    }
    COVER("end");
}

// a change after a long time without any
HARNESS(unchanged) {
    int a = vf_nondet_i32(), e = 0, o = 0;
    auto g = lazy([&](int p) { ++e; return p ^ 5; }, [&] { return a; });
    auto f = lazy([&](int p, int q) { ++o; return vf_uf(2, p, q); }, g, [] { return 3; });
    const int n = BOUND(300, 1200);
    for (int i = 1; i <= n; ++i) {
        VALUE("up to date", f() == vf_uf(2, a ^ 5, 3));
        EVALS("evaluated once", e == 1 && o == 1);
    }
    a = other_than(a);
    VALUE("up to date, after the change", f() == vf_uf(2, a ^ 5, 3) && f() == vf_uf(2, a ^ 5, 3));
    EVALS("evaluated once more", e == 2 && o == 2);
    COVER("end");
}
