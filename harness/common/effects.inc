// BOUNDS: functions that change the sources of their own dependencies, or of others, and that call other lazy functions; sources that are replaced; 4 calls with arbitrary changes in between
#include "common/lazy_common.h"

// the function changes what it has been evaluated for
HARNESS(own_source) {
    int a = vf_nondet_i32(), e = 0, later = 0;
    bool change = false;
    auto f = lazy([&](int x) {
        ++e;
        if (change) a = later, change = false;
        return vf_uf(1, x);
    }, [&] { return a; });
    Model<int> m;
    for (int i = 0; i < HIST(4); ++i) {
        later = vf_nondet_i32(), change = vf_nondet_bool();
        const int asked = a;
        m.call(asked);
        VALUE("the value for what it has been asked for", f() == vf_uf(1, asked));
        EVALS("evaluated when needed", e == m.evaluations);
        if (i == 1) a = vf_nondet_i32();
    }
    COVER("end");
}

// the function changes the source of another one's dependency
HARNESS(other_source) {
    int a = vf_nondet_i32(), b = vf_nondet_i32(), ef = 0, eg = 0;
    auto f = lazy([&](int x) { ++ef; b = vf_uf(3, x); return vf_uf(1, x); }, [&] { return a; });
    auto g = lazy([&](int x) { ++eg; return vf_uf(2, x); }, [&] { return b; });
    Model<int> mf, mg;
    for (int i = 0; i < HIST(4); ++i) {
        if (vf_nondet_bool()) {
            mf.call(a);
            VALUE("f", f() == vf_uf(1, a));
        } else {
            mg.call(b);
            VALUE("g", g() == vf_uf(2, b));
        }
        EVALS("evaluated when needed", ef == mf.evaluations && eg == mg.evaluations);
        if (i == 1) a = vf_nondet_i32(), b = vf_nondet_i32();
    }
    COVER("end");
}

// a lazy function that is called from within another one, with the same source and another
HARNESS(inner_calls) {
    int a = vf_nondet_i32(), b = vf_nondet_i32(), ei = 0, eo = 0;
    auto inner = lazy([&](int x, int y) { ++ei; return vf_uf(1, x, y); }, [&] { return a; }, [&] { return b; });
    auto outer = lazy([&](int x) { ++eo; return vf_uf(2, x, inner(), inner()); }, [&] { return a; });
    Model<int> mo;
    Model<int, int> mi;
    int kept = 0;
    for (int i = 0; i < HIST(3); ++i) {
        if (mo.call(a)) {
            mi.call(a, b);
            kept = vf_uf(2, a, vf_uf(1, a, b), vf_uf(1, a, b));
        }
        VALUE("outer", outer() == kept);
        if (i < 2 && vf_nondet_bool()) {
            mi.call(a, b);
            VALUE("inner", inner() == vf_uf(1, a, b));
        }
        EVALS("evaluated when needed", eo == mo.evaluations && ei == mi.evaluations);
        a = vf_nondet_i32(), b = vf_nondet_i32();
    }
    COVER("end");
}

// lazy functions that are asked as sources, from within a dependency
HARNESS(asked_inside) {
    int a = vf_nondet_i32(), ei = 0, eo = 0;
    auto inner = lazy([&](int x) { ++ei; return x & 3; }, [&] { return a; });
    auto outer = lazy([&](int x, int y) { ++eo; return vf_uf(2, x, y); }, [&] { return inner(); }, [&] { return inner() + 1; });
    Model<int> mi, mo;
    for (int i = 0; i < HIST(3); ++i) {
        mi.call(a);
        mo.call(a & 3);
        VALUE("up to date", outer() == vf_uf(2, a & 3, (a & 3) + 1));
        EVALS("evaluated when needed", eo == mo.evaluations && ei == mi.evaluations);
        a = vf_nondet_i32();
    }
    COVER("end");
}

// a source that is another object each time
HARNESS(replaced_source) {
    int x[3] = { vf_nondet_i32(), vf_nondet_i32(), vf_nondet_i32() }, e = 0;
    const int *p = x;
    auto f = lazy([&](int v) { ++e; return vf_uf(1, v); }, [&] { return *p; });
    auto r = lazy([&](int v) { return vf_uf(2, v); }, [&]() -> const int & { return *p; });
    Model<int> m;
    for (int i = 0; i < HIST(4); ++i) {
        m.call(*p);
        VALUE("up to date", f() == vf_uf(1, *p) && r() == vf_uf(2, *p));
        EVALS("evaluated when needed", e == m.evaluations);
        p = x + (i + 1) % 3;
        if (vf_nondet_bool()) x[0] = vf_nondet_i32();
    }
    COVER("end");
}
