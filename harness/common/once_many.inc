// BOUNDS: 4 to 9 dependencies, functions, values and lazy functions in turn; any subset of the functions changes in between 3 calls
#include "common/lazy_common.h"

template<size_t I>
static auto source(int *v, int *n) {
    if constexpr (I % 4 == 1) return int(v[I]);
    else if constexpr (I == 2) return lazy([](int x) { return x; }, [v, n] { ++n[I]; return v[I]; });
    else return [v, n] { ++n[I]; return v[I]; };
}
template<size_t... I>
static void many(std::index_sequence<I...>) {
    constexpr size_t k = sizeof...(I);
    int v[k] = { (int(I), vf_nondet_i32())... }, n[k] = {}, first[k];
    for (size_t j = 0; j < k; ++j) first[j] = v[j];
    auto f = lazy([&](auto... x) { return vf_uf(1, x...); }, source<I>(v, n)...);
    for (size_t j = 0; j < k; ++j) CHECK("no dependency is evaluated at construction", n[j] == 0);
    const unsigned p = vf_pick(k), q = (p + 3) % k;
    for (int i = 1; i <= 3; ++i) {
        for (size_t j = 1; j < k; j += 4) v[j] = vf_nondet_i32(); // of no influence
        CHECK("up to date", f() == vf_uf(1, (I % 4 == 1 ? first[I] : v[I])...));
        for (size_t j = 0; j < k; ++j) CHECK("each dependency is evaluated once for each call", n[j] == (j % 4 == 1 ? 0 : i));
        v[p] = vf_nondet_i32(), v[q] = vf_nondet_i32();
    }
    COVER("end");
}
