// BOUNDS: copies and moves of chains of 4 lazy functions (and of 9 that change at all levels) after 0 or 1 calls, then 3 calls of either in any order, with any values in between
#include "common/lazy_common.h"

static int evals[13];
template<int n>
static auto chain(const int *a) {
    if constexpr (n == 0) return [a] { return *a; };
    else return lazy([](int x) { ++evals[n]; return x >> 1; }, chain<n - 1>(a));
}
template<int n, bool two>
static void deep() {
    for (int &e : evals) e = 0;
    const int x = vf_nondet_i32(), y = vf_nondet_i32();
    if constexpr (two) vf_assume(x >> n != y >> n);
    auto any = [&] { return two ? vf_choose(2) ? x : y : vf_nondet_i32(); };
    int a = any();
    auto f = chain<n>(&a);
    Model<int> m[2][n];
    auto call = [&](auto &g, int which) {
        int before[n];
        for (int j = 0; j < n; ++j) before[j] = evals[j + 1];
        const int r = g();
        CHECK("up to date", r == a >> n);
        for (int j = 0; j < n; ++j) CHECK("evaluated as if it was alone", evals[j + 1] - before[j] == m[which][j].call(a >> j));
    };
    if (vf_nondet_bool()) call(f, 0), a = any();
    auto c = f;
    for (int j = 0; j < n; ++j) m[1][j] = m[0][j];
    if (vf_nondet_bool()) {
        auto d = std::move(c);
        call(d, 1);
        a = any();
        call(f, 0);
        a = any();
        call(d, 1);
        COVER("moved");
        return;
    }
    for (int i = 0; i < 3; ++i) {
        if (vf_nondet_bool()) call(c, 1);
        else call(f, 0);
        a = any();
    }
    COVER("end");
}
HARNESS(deep_4) { deep<4, false>(); }
HARNESS(deep_9) { deep<9, true>(); }
