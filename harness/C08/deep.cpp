// BOUNDS: chains of 6 lazy (thorough: 10) functions, any one of which (or the source) throws at any subset of 3 calls, with any values in between
#include "common/lazy_common.h"

struct Failure {
    int level;
};
static int failing, evals[13];
template<int n>
static auto chain(const int *a) {
    if constexpr (n == 0) return [a] { if (failing == 0) throw Failure{ 0 }; return *a; };
    else return lazy([](int x) { ++evals[n]; if (failing == n) throw Failure{ n }; return x ^ n; }, chain<n - 1>(a));
}
template<int n>
static void deep() {
    for (int &e : evals) e = 0;
    int a = vf_nondet_i32(), mask = 0, last = 0;
    for (int i = 1; i <= n; ++i) mask ^= i;
    failing = -1;
    const int level = vf_pick(n + 1);
    auto f = chain<n>(&a);
    bool known = false; // the last call has succeeded
    for (int i = 0; i < HIST(3); ++i) {
        failing = vf_nondet_bool() ? level : -1;
        int before[n + 1];
        for (int j = 1; j <= n; ++j) before[j] = evals[j];
        try {
            CHECK("up to date", f() == (a ^ mask));
            CHECK("a failure is not hidden", failing == -1 || failing > 0 && evals[failing] == before[failing]);
            if (known) for (int j = 1; j <= n; ++j) CHECK("evaluated iff the value differs", evals[j] - before[j] == (a != last));
            for (int j = 1; j <= n; ++j) CHECK("at most once", evals[j] - before[j] <= 1);
            known = true, last = a;
            COVER("value");
        } catch (const Failure &e) {
            CHECK("the exception of the level that has failed", e.level == failing);
            CHECK("of an evaluation", failing == 0 || evals[failing] == before[failing] + 1);
            for (int j = 1; j <= n; ++j) CHECK("at most once", evals[j] - before[j] <= 1);
            for (int j = failing + 1; j <= n; ++j) CHECK("nothing above is evaluated", evals[j] == before[j]);
            known = false;
            COVER("exception");
        }
        failing = -1;
        if (vf_nondet_bool()) a = vf_nondet_i32();
    }
    const int e = evals[n];
    CHECK("up to date afterwards", f() == (a ^ mask));
    CHECK("and remembered", f() == (a ^ mask) && evals[n] - e <= 1);
}
HARNESS(chain) { deep<BOUND(6, 10)>(); }
