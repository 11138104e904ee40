// BOUNDS: chains of 6, 10 and 16 lazy functions, each of which passes on what another bit of the source says; 3 calls, any value
#include "common/lazy_common.h"

static int evals[17];
template<int n>
static auto chain(const int *a) {
    if constexpr (n == 0) return [a] { return *a; };
    else return lazy([](int x) { ++evals[n]; return x >> 1; }, chain<n - 1>(a));
}
template<int n>
static void deep() {
    for (int &e : evals) e = 0;
    int a = vf_nondet_i32();
    auto f = chain<n>(&a);
    Model<int> m[n];
    for (int i = 0; i < HIST(3); ++i) {
        for (int j = 0; j < n; ++j) m[j].call(a >> j);
        CHECK("up to date", f() == a >> n);
        for (int j = 0; j < n; ++j) CHECK("evaluated iff what is below differs", evals[j + 1] == m[j].evaluations);
        a = vf_nondet_i32();
    }
    COVER("end");
}
HARNESS(deep_6) { deep<6>(); }
HARNESS(deep_10) { deep<10>(); }
HARNESS(deep_16) { deep<16>(); }
