// BOUNDS: 1 to 9 function dependencies; 3 calls
#include "common/spy.h"

template<size_t... I>
static void many(std::index_sequence<I...>) {
    constexpr size_t k = sizeof...(I);
    reset();
    unsigned char v[k] = { (int(I), any_key())... };
    auto f = lazy([&](const auto &...x) { return Spy<15>{ vf_uf(1, x.v...) }; }, [&v] { return Spy<I>{ v[I] }; }...);
    f();
    CHECK("nothing to compare with, at first", all_compared() == 0);
    const unsigned p = vf_pick(k), q = (p + 2) % k;
    for (int i = 1; i < HIST(3); ++i) {
        reset();
        const unsigned char before_p = v[p], before_q = v[q];
        v[p] = any_key();
        if (i == 2) v[q] = any_key();
        CHECK("up to date", f().v == vf_uf(1, v[I]...));
        for (size_t j = 0; j < k; ++j) CHECK("each function is compared once", compared[j] == 1);
        CHECK("the result is compared at most if evaluated", compared[15] <= (v[p] != before_p || v[q] != before_q));
    }
    COVER("end");
}
