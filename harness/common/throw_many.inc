// BOUNDS: 1 to 9 dependencies, functions and lazy functions in turn; any of them or the function itself throws, at any of 3 calls, while any one changes
#include "common/lazy_common.h"

static void fail_if(bool c, int code) { if (c) throw code; }

template<size_t I>
static auto source(int *v, const unsigned &at) {
    if constexpr (I % 4 == 2) return lazy([&at](int x) { fail_if(at == I + 1, I + 1); return x; }, [v] { return v[I]; });
    else return [v, &at] { fail_if(at == I + 1, I + 1); return v[I]; };
}
template<size_t... I>
static void many(std::index_sequence<I...>) {
    constexpr size_t k = sizeof...(I);
    int v[k] = { (int(I), vf_nondet_i32())... }, e = 0;
    unsigned at = 0;
    auto f = lazy([&](auto... x) { ++e; fail_if(at == k + 1, k + 1); return vf_uf(1, x...); }, source<I>(v, at)...);
    const unsigned p = vf_pick(k), start = vf_pick(2);
    bool clean = false;
    if (start) {
        CHECK("a first value", f() == vf_uf(1, v[I]...));
        clean = true;
    }
    for (int i = 0; i < HIST(2); ++i) {
        const int old = v[p], before = e;
        v[p] = vf_nondet_i32();
        at = i ? 0 : vf_pick(k + 2);
        try {
            CHECK("never an outdated value", f() == vf_uf(1, v[I]...));
            CHECK("evaluated when needed", e - before == (!clean || v[p] != old));
            CHECK("a failing dependency is not ignored", at == 0 || at == k + 1 || at % 4 == 3);
            clean = true;
            COVER("value");
        } catch (int code) {
            CHECK("the exception that has been thrown", code == int(at) && at != 0);
            clean = false;
            COVER("exception");
        }
    }
    const int before = e;
    CHECK("remembered", f() == vf_uf(1, v[I]...) && e == before);
}
