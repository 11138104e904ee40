// BOUNDS: histories of 6 calls for one function dependency, 4 for two, 3 for three to six; between calls any dependency takes any 32-bit value; f is any pure function (uninterpreted)
#include "common/lazy_common.h"

HARNESS(fn1) {
    int a = vf_nondet_i32(), evals = 0;
    auto f = lazy([&](int x) { ++evals; return vf_uf(1, x); }, [&] { return a; });
    EVALS("nothing is evaluated at construction", evals == 0);
    Model<int> m;
    for (int i = 0; i < BOUND(6, 9); ++i) {
        bool again = m.call(a);
        VALUE("result is f(current dependency)", f() == vf_uf(1, a));
        EVALS("evaluated only when the dependency changed", evals == m.evaluations);
        if (again && i) COVER("re-evaluated");
        if (!again) COVER("cached");
        a = vf_nondet_i32();
    }
}

HARNESS(fn2) {
    int a = vf_nondet_i32(), b = vf_nondet_i32(), evals = 0;
    auto f = lazy([&](int x, int y) { ++evals; return vf_uf(1, x, y); }, [&] { return a; }, [&] { return b; });
    EVALS("nothing is evaluated at construction", evals == 0);
    Model<int, int> m;
    for (int i = 0; i < BOUND(4, 6); ++i) {
        bool again = m.call(a, b);
        VALUE("result is f(current dependencies)", f() == vf_uf(1, a, b));
        EVALS("evaluated only when a dependency changed", evals == m.evaluations);
        if (again && i) COVER("re-evaluated");
        if (!again) COVER("cached");
        a = vf_nondet_i32();
        b = vf_nondet_i32();
    }
}

HARNESS(fn3) {
    int a = vf_nondet_i32(), b = vf_nondet_i32(), c = vf_nondet_i32(), evals = 0;
    auto f = lazy([&](int x, int y, int z) { ++evals; return vf_uf(1, x, y, z); },
      [&] { return a; }, [&] { return b; }, [&] { return c; });
    Model<int, int, int> m;
    for (int i = 0; i < BOUND(3, 4); ++i) {
        bool again = m.call(a, b, c);
        VALUE("result is f(current dependencies)", f() == vf_uf(1, a, b, c));
        EVALS("evaluated only when a dependency changed", evals == m.evaluations);
        if (again && i) COVER("re-evaluated");
        if (!again) COVER("cached");
        a = vf_nondet_i32();
        b = vf_nondet_i32();
        c = vf_nondet_i32();
    }
}

// four to six dependencies: in between the calls, one or all of them change
template<size_t... I>
static void fn_many(std::index_sequence<I...>, int steps) {
    constexpr size_t n = sizeof...(I);
    int v[n] = { (int(I), vf_nondet_i32())... }, evals = 0;
    auto f = lazy([&](auto... x) { ++evals; return vf_uf(1, x...); }, [&v] { return v[I]; }...);
    EVALS("nothing is evaluated at construction", evals == 0);
    Model<decltype(int(I))...> m;
    for (int i = 0; i < steps; ++i) {
        bool again = m.call(v[I]...);
        VALUE("result is f(current dependencies)", f() == vf_uf(1, v[I]...));
        EVALS("evaluated only when a dependency changed", evals == m.evaluations);
        if (again && i) COVER("re-evaluated");
        if (!again) COVER("cached");
        v[vf_pick(n)] = vf_nondet_i32();
    }
}
HARNESS(fn4) { fn_many(std::make_index_sequence<4>{}, BOUND(3, 4)); }
HARNESS(fn5) { fn_many(std::make_index_sequence<5>{}, BOUND(3, 4)); }
HARNESS(fn6) { fn_many(std::make_index_sequence<6>{}, BOUND(3, 4)); }
