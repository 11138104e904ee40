// BOUNDS: a lazy function with 5 dependencies (functions with state, values, lazy function), copied after 0 or 1 calls; given as a dependency to two others; 2 to 4 calls
#include "common/lazy_common.h"

HARNESS(five) {
    int a = vf_nondet_i32(), b = vf_nondet_i32(), e = 0;
    const int s0 = vf_nondet_i32();
    auto g = lazy([&](int x) { return vf_uf(1, x); }, [&] { return b; });
    auto f = lazy([&e, s = 0](int u, int v, int w, int x, int y) mutable { ++e; return vf_uf(2, u, v, w, x, y, ++s); },
      [&] { return a; }, s0, g, [n = s0]() mutable { return n = vf_uf(3, n); }, 9);
    struct State {
        int n, s = 0;
        std::optional<std::tuple<int, int, int>> last;
    } sf{ s0 };
    auto next = [&](State &s) {
        s.n = vf_uf(3, s.n);
        auto now = std::tuple{ a, vf_uf(1, b), s.n };
        if (s.last != now) ++s.s, s.last = now;
        return vf_uf(2, a, s0, vf_uf(1, b), s.n, 9, s.s);
    };
    if (vf_nondet_bool()) CHECK("before the copy", f() == next(sf));
    auto c = f;
    State sc = sf;
    a = vf_nondet_i32();
    for (int i = 0; i < HIST(3); ++i) {
        if (vf_nondet_bool()) CHECK("the original continues", f() == next(sf));
        else CHECK("the copy continues", c() == next(sc));
        if (i == 1) b = vf_nondet_i32();
    }
    COVER("end");
}

// two others get a copy of their own
HARNESS(two_owners) {
    int a = vf_nondet_i32(), e = 0, e1 = 0, e2 = 0;
    auto g = lazy([&](int x) { ++e; return vf_uf(1, x); }, [&] { return a; });
    Model<int> m;
    if (vf_nondet_bool()) m.call(a), g();
    auto f1 = lazy([&](int x) { ++e1; return vf_uf(2, x); }, g);
    auto f2 = lazy([&](int x) { ++e2; return vf_uf(3, x); }, g);
    auto m1 = m, m2 = m;
    m1.evaluations = m2.evaluations = 0;
    Model<int> k1, k2;
    a = vf_nondet_i32();
    for (int i = 0; i < HIST(4); ++i) {
        switch (vf_choose(3)) {
        case 0: m.call(a), CHECK("the original is up to date", g() == vf_uf(1, a)); break;
        case 1: m1.call(a), k1.call(vf_uf(1, a)), CHECK("the first is up to date", f1() == vf_uf(2, vf_uf(1, a))); break;
        default: m2.call(a), k2.call(vf_uf(1, a)), CHECK("the second is up to date", f2() == vf_uf(3, vf_uf(1, a)));
        }
        CHECK("each has a cache of its own", e == m.evaluations + m1.evaluations + m2.evaluations);
        CHECK("each is evaluated when needed", e1 == k1.evaluations && e2 == k2.evaluations);
        if (i == 1) a = vf_nondet_i32();
    }
    COVER("end");
}
