// BOUNDS: 4 to 10 dependencies, functions and values in turn; 3 calls, with any one or two of them changed in between
#include "common/lazy_common.h"

template<size_t... I>
static void many(std::index_sequence<I...>) {
    constexpr size_t n = sizeof...(I);
    int v[n] = { (int(I), vf_nondet_i32())... }, evals = 0;
    auto f = lazy([&](auto... x) { ++evals; return vf_uf(1, x...); }, [&v] { return v[I]; }...);
    Model<decltype(int(I))...> m;
    const unsigned k = vf_pick(n), l = (k + n / 2) % n;
    for (int i = 0; i < HIST(3); ++i) {
        bool again = m.call(v[I]...);
        VALUE("result is f(current dependencies)", f() == vf_uf(1, v[I]...));
        EVALS("evaluated only when a dependency changed", evals == m.evaluations);
        if (again && i) COVER("re-evaluated");
        if (!again) COVER("cached");
        v[k] = vf_nondet_i32();
        if (i) v[l] = vf_nondet_i32();
    }
}
template<size_t I>
static auto source(int *v) {
    if constexpr (I % 2) return int(v[I]);
    else return [v] { return v[I]; };
}
template<size_t... I>
static void mixed(std::index_sequence<I...>) {
    constexpr size_t n = sizeof...(I);
    int v[n] = { (int(I), vf_nondet_i32())... }, evals = 0;
    auto f = lazy([&](auto... x) { ++evals; return vf_uf(1, x...); }, source<I>(v)...);
    Model<decltype(int(I))...> m;
    const unsigned k = vf_pick(n / 2) * 2;
    for (int i = 0; i < HIST(3); ++i) {
        m.call(v[I]...);
        VALUE("values and functions", f() == vf_uf(1, v[I]...));
        EVALS("evaluated only when a function's value changed", evals == m.evaluations);
        v[k] = vf_nondet_i32();
    }
    COVER("end");
}
