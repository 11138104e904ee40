// BOUNDS: functions without result, with 1 to 9 dependencies (functions, values, lazy functions); 3 calls, any two sources changed in between
#include "common/lazy_common.h"

template<size_t I>
static auto source(int *v) {
    if constexpr (I % 4 == 1) return int(v[I]);
    else if constexpr (I == 2) return lazy([](int x) { return x & 3; }, [v] { return v[I]; });
    else return [v] { return v[I]; };
}
template<size_t... I>
static void many(std::index_sequence<I...>) {
    constexpr size_t k = sizeof...(I);
    int v[k] = { (int(I), vf_nondet_i32())... }, runs = 0, last = 0;
    auto f = lazy([&](auto... x) { ++runs; last = vf_uf(1, x...); }, source<I>(v)...);
    static_assert(std::is_void_v<decltype(f())>);
    const unsigned p = vf_pick(k), q = (p + 3) % k;
    Model<decltype(int(I))...> m;
    for (int i = 1; i <= 3; ++i) {
        bool again = m.call((I == 2 ? v[I] & 3 : v[I])...);
        f();
        CHECK("runs when needed", runs == m.evaluations);
        CHECK("with the current values", last == vf_uf(1, (I == 2 ? v[I] & 3 : v[I])...));
        if (i > 1 && again) COVER("again");
        if (!again) COVER("not again");
        if (p % 4 != 1) v[p] = vf_nondet_i32();
        if (q % 4 != 1) v[q] = vf_nondet_i32();
    }
}
