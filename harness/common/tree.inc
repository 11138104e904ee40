// BOUNDS: binary trees of 7 and 15 lazy functions over 8 and 16 functions, of which any two (one) change in between calls; chains of 12 lazy functions with a side input each
#include "common/lazy_common.h"

static int evals[32];
template<int at, int leaves>
static auto tree(const int *v) {
    if constexpr (at >= leaves) return [v] { return v[at - leaves]; };
    else return lazy([](int x, int y) { ++evals[at]; return (x ^ (y << 1 | int(unsigned(y) >> 31))) + at; }, tree<2 * at, leaves>(v), tree<2 * at + 1, leaves>(v));
}
template<int at, int leaves>
static int expected(const int *v) {
    if constexpr (at >= leaves) return v[at - leaves];
    else {
        const int x = expected<2 * at, leaves>(v), y = expected<2 * at + 1, leaves>(v);
        return (x ^ (y << 1 | int(unsigned(y) >> 31))) + at;
    }
}
// which functions have a changed leaf below: one changed leaf changes all of them up to the top
template<int leaves>
static void trees() {
    for (int &e : evals) e = 0;
    int v[leaves];
    for (int j = 0; j < leaves; ++j) v[j] = leaves == 8 ? vf_nondet_i32() : j * j;
    auto f = tree<1, leaves>(v);
    CHECK("nothing is evaluated at construction", evals[1] == 0);
    VALUE("up to date", (f() == expected<1, leaves>(v)));
    for (int j = 1; j < leaves; ++j) EVALS("each is evaluated at first", evals[j] == 1);
    for (int i = 0; i < (leaves == 8 ? 2 : 1); ++i) {
        const int p = vf_pick(leaves), old = v[p];
        int before[leaves];
        for (int j = 1; j < leaves; ++j) before[j] = evals[j];
        v[p] = vf_nondet_i32();
        const bool changed = v[p] != old;
        VALUE("up to date", (f() == expected<1, leaves>(v)));
        for (int j = 1; j < leaves; ++j) {
            int q = p + leaves;
            while (q > j) q /= 2;
            EVALS("evaluated iff it is above what has changed", evals[j] - before[j] == (changed && q == j));
        }
        if (changed) COVER("changed");
        else COVER("same");
    }
}
HARNESS(tree_8) { trees<8>(); }
HARNESS(tree_16) { trees<16>(); }

template<int n>
static auto chain(const int *v) {
    if constexpr (n == 0) return [v] { return v[0]; };
    else return lazy([](int x, int y) { ++evals[n]; return x ^ y; }, chain<n - 1>(v), [v] { return v[n]; });
}
HARNESS(chain_12) {
    constexpr int n = 12;
    for (int &e : evals) e = 0;
    int v[n + 1];
    for (int j = 0; j <= n; ++j) v[j] = j * j;
    auto value = [&] { int r = 0; for (int x : v) r ^= x; return r; };
    auto f = chain<n>(v);
    VALUE("up to date", f() == value());
    for (int i = 0; i < HIST(2); ++i) {
        const int p = vf_pick(n + 1), old = v[p];
        int before[n + 1];
        for (int j = 1; j <= n; ++j) before[j] = evals[j];
        v[p] = vf_nondet_i32();
        const bool changed = v[p] != old;
        VALUE("up to date", f() == value());
        for (int j = 1; j <= n; ++j) EVALS("evaluated iff something below has changed", evals[j] - before[j] == (changed && j >= p));
    }
    COVER("end");
}
