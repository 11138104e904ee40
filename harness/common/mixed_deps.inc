// BOUNDS: a value, a function and a lazy function as dependencies, in every order; 3 calls with arbitrary changes of all of them in between
#include "common/lazy_common.h"

// a value, a function and a lazy function, in every position
template<int order>
static void mixed() {
    int v = vf_nondet_i32(), a = vf_nondet_i32(), b = vf_nondet_i32(), eg = 0, ef = 0;
    const int v0 = v;
    auto fn = [&] { return a; };
    auto lz = lazy([&](int x) { ++eg; return vf_uf(1, x); }, [&] { return b; });
    auto body = [&](int x, int y, int z) { ++ef; return vf_uf(2, x, y, z); };
    auto f = [&] {
        if constexpr (order == 0) return lazy(body, v, fn, lz);
        else if constexpr (order == 1) return lazy(body, fn, lz, v);
        else if constexpr (order == 2) return lazy(body, lz, v, fn);
        else if constexpr (order == 3) return lazy(body, v, lz, fn);
        else if constexpr (order == 4) return lazy(body, fn, v, lz);
        else return lazy(body, lz, fn, v);
    }();
    auto expected = [&](int l) {
        if constexpr (order == 0) return vf_uf(2, v0, a, l);
        else if constexpr (order == 1) return vf_uf(2, a, l, v0);
        else if constexpr (order == 2) return vf_uf(2, l, v0, a);
        else if constexpr (order == 3) return vf_uf(2, v0, l, a);
        else if constexpr (order == 4) return vf_uf(2, a, v0, l);
        else return vf_uf(2, l, a, v0);
    };
    EVALS("nothing is evaluated at construction", eg == 0 && ef == 0);
    Model<int> mg;
    Model<int, int> mf;
    for (int i = 0; i < HIST(3); ++i) {
        v = vf_nondet_i32(); // has no effect: the value has been copied
        mg.call(b);
        bool again = mf.call(a, vf_uf(1, b));
        VALUE("result is f(value, function, lazy function)", f() == expected(vf_uf(1, b)));
        EVALS("the lazy dependency is evaluated only when needed", eg == mg.evaluations);
        EVALS("evaluated only when a dependency changed", ef == mf.evaluations);
        if (i && again) COVER("re-evaluated");
        if (!again) COVER("cached");
        a = vf_nondet_i32();
        b = vf_nondet_i32();
    }
}
HARNESS(mixed0) { mixed<0>(); }
HARNESS(mixed1) { mixed<1>(); }
HARNESS(mixed2) { mixed<2>(); }
HARNESS(mixed3) { mixed<3>(); }
HARNESS(mixed4) { mixed<4>(); }
HARNESS(mixed5) { mixed<5>(); }
