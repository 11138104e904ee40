// BOUNDS: a chain of two lazy functions, copied after 0 to 2 calls, as a copy or as a dependency of another; 3 operations afterwards
#include "common/lazy_common.h"

HARNESS(chain_copy) {
    int a = vf_nondet_i32(), e1 = 0, e2 = 0;
    auto g = lazy([&](int x) { ++e1; return vf_uf(1, x); }, [&] { return a; });
    auto f = lazy([&](int x) { ++e2; return vf_uf(2, x); }, g);
    Model<int> m1, m2;
    for (int n = vf_pick(2); n; --n) {
        m1.call(a), m2.call(vf_uf(1, a));
        CHECK("up to date, before the copy", f() == vf_uf(2, vf_uf(1, a)));
        a = vf_nondet_i32();
    }
    auto c = f;
    auto k1 = m1, k2 = m2;
    k1.evaluations = k2.evaluations = 0;
    for (int i = 0; i < BOUND(3, 5); ++i) {
        if (vf_nondet_bool()) {
            m1.call(a), m2.call(vf_uf(1, a));
            CHECK("the original is up to date", f() == vf_uf(2, vf_uf(1, a)));
            COVER("original");
        } else {
            k1.call(a), k2.call(vf_uf(1, a));
            CHECK("the copy is up to date", c() == vf_uf(2, vf_uf(1, a)));
            COVER("copy");
        }
        CHECK("inner functions are evaluated only when needed", e1 == m1.evaluations + k1.evaluations);
        CHECK("outer functions are evaluated only when needed", e2 == m2.evaluations + k2.evaluations);
        a = vf_nondet_i32();
    }
}

// a dependency that has been called before
HARNESS(warm_dependency) {
    int a = vf_nondet_i32(), e1 = 0, e2 = 0;
    auto g = lazy([&](int x) { ++e1; return vf_uf(1, x); }, [&] { return a; });
    Model<int> m1, m2;
    for (int n = vf_pick(3); n; --n) {
        m1.call(a);
        CHECK("up to date, on its own", g() == vf_uf(1, a));
        if (vf_nondet_bool()) a = vf_nondet_i32();
    }
    auto f = lazy([&](int x) { ++e2; return vf_uf(2, x); }, g);
    for (int i = 0; i < HIST(3); ++i) {
        m1.call(a);
        bool again = m2.call(vf_uf(1, a));
        CHECK("up to date", f() == vf_uf(2, vf_uf(1, a)));
        CHECK("the dependency continues with its own cache", e1 == m1.evaluations);
        CHECK("evaluated only when needed", e2 == m2.evaluations);
        if (i && again) COVER("again");
        if (!again) COVER("not again");
        a = vf_nondet_i32();
    }
}
