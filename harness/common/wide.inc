// BOUNDS: lazy functions as all of the dependencies (4 to 9) of one; results that hide a part of the changes; 3 calls, any two sources changed in between
#include "common/lazy_common.h"

template<size_t... I>
static void wide(std::index_sequence<I...>) {
    constexpr size_t k = sizeof...(I);
    int v[k] = { (int(I), vf_nondet_i32())... }, e[k] = {}, ef = 0;
    auto f = lazy([&](auto... x) { ++ef; return vf_uf(2, x...); }, lazy([&e](int x) { ++e[I]; return x & 0xffff; }, [&v] { return v[I]; })...);
    const unsigned p = vf_pick(k), q = (p + k / 2) % k;
    Model<decltype(int(I))...> mf;
    Model<int> mp, mq;
    for (int i = 0; i < HIST(3); ++i) {
        mp.call(v[p]), mq.call(v[q]);
        const bool again = mf.call((v[I] & 0xffff)...);
        CHECK("up to date", f() == vf_uf(2, (v[I] & 0xffff)...));
        for (size_t j = 0; j < k; ++j) CHECK("a dependency is evaluated only if its own source changed", e[j] == (j == p ? mp.evaluations : j == q ? mq.evaluations : 1));
        CHECK("evaluated only if the value of a dependency changed", ef == mf.evaluations);
        if (i && !again && e[p] > ef) COVER("cut off");
        if (i && again) COVER("changed");
        v[p] = vf_nondet_i32();
        if (i) v[q] = vf_nondet_i32();
    }
}
