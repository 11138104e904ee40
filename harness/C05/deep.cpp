// BOUNDS: values that count their comparisons, at each level of a chain of 10 lazy functions, each of which passes on what another bit of the source says; 3 calls, any value
#include "common/lazy_common.h"

static int compared[11], evals[11];
template<int origin>
struct Spy {
    int v;
    bool operator==(const Spy &other) const { ++compared[origin]; return v == other.v; }
};
template<int n>
static auto chain(const int *a) {
    if constexpr (n == 0) return [a] { return Spy<0>{ *a }; };
    else return lazy([](const Spy<n - 1> &x) { ++evals[n]; return Spy<n>{ x.v >> 1 }; }, chain<n - 1>(a));
}
template<int n>
static void deep() {
    for (int j = 0; j <= n; ++j) compared[j] = evals[j] = 0;
    int a = vf_nondet_i32();
    auto f = chain<n>(&a);
    f();
    for (int j = 0; j <= n; ++j) CHECK("nothing to compare with, at first", compared[j] == 0);
    for (int i = 1; i < HIST(3); ++i) {
        int e[n + 1];
        for (int j = 0; j <= n; ++j) compared[j] = 0, e[j] = evals[j];
        a = vf_nondet_i32();
        CHECK("up to date", f().v == a >> n);
        CHECK("the source is compared once", compared[0] == 1);
        for (int j = 1; j <= n; ++j) CHECK("the others are compared at most if evaluated", compared[j] <= evals[j] - e[j]);
        if (compared[n]) COVER("all");
        if (!compared[1]) COVER("none");
    }
}
HARNESS(deep_5) { deep<5>(); }
HARNESS(deep_10) { deep<10>(); }
