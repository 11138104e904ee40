// BOUNDS: one to five function dependencies next to values and lazy functions; 4 calls with arbitrary changes in between
#include "common/lazy_common.h"

HARNESS(once) {
    int a = vf_nondet_i32(), n = 0, runs = 0;
    auto f = lazy([&](int x) { ++runs; return vf_uf(1, x); }, [&] { ++n; return a; });
    CHECK("no dependency is evaluated at construction", n == 0);
    for (int i = 1; i <= 4; ++i) {
        f();
        CHECK("the dependency is evaluated once for each call", n == i);
        a = vf_nondet_i32();
    }
    if (runs == 1) COVER("never changed");
    if (runs == 4) COVER("always changed");
}

template<size_t... I>
static void each_once(std::index_sequence<I...>) {
    constexpr size_t k = sizeof...(I);
    int v[k] = { (int(I), vf_nondet_i32())... }, n[k] = {}, runs = 0;
    auto f = lazy([&](auto... x) { ++runs; return vf_uf(1, x...); }, [&v, &n] { ++n[I]; return v[I]; }...);
    for (size_t j = 0; j < k; ++j) CHECK("no dependency is evaluated at construction", n[j] == 0);
    for (int i = 1; i <= 3; ++i) {
        CHECK("up to date", f() == vf_uf(1, v[I]...));
        for (size_t j = 0; j < k; ++j) CHECK("each dependency is evaluated once for each call", n[j] == i);
        v[vf_pick(k)] = vf_nondet_i32();
    }
    if (runs == 1) COVER("never changed");
    if (runs == 3) COVER("always changed");
}
HARNESS(once2) { each_once(std::make_index_sequence<2>{}); }
HARNESS(once3) { each_once(std::make_index_sequence<3>{}); }
HARNESS(once5) { each_once(std::make_index_sequence<5>{}); }
