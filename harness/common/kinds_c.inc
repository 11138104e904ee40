// BOUNDS: functions and dependencies that own up to 1024 bytes of state, strings, vectors or other functions; 3 calls
#include "common/lazy_common.h"

#include <array>
#include <functional>
#include <memory>
#include <string>
#include <vector>

template<typename S>
static int read(const S &s) {
    if constexpr (requires { *s.begin(); }) {
        int n = 0, i = 0;
        for (auto x : s) n += ++i * x;
        return n;
    } else return *s;
}
template<typename S>
static void owned(const S &s1, const S &s2, const S &s3) {
    int a = vf_nondet_i32(), b = vf_nondet_i32(), e1 = 0, e2 = 0;
    const int r1 = read(s1), r2 = read(s2), r3 = read(s3);
    auto g = lazy([s1, &e1](int x) { ++e1; return vf_uf(1, x, read(s1)); }, [s2, &a] { return a ^ read(s2); });
    auto f = lazy([s3, &e2](int x, int y) mutable { ++e2; return vf_uf(2, x, y, read(s3)); }, g, [s2, &b]() mutable { return b ^ read(s2); });
    EVALS("nothing is evaluated at construction", e1 == 0 && e2 == 0);
    Model<int> m1;
    Model<int, int> m2;
    for (int i = 0; i < HIST(3); ++i) {
        m1.call(a ^ r2);
        const bool again = m2.call(vf_uf(1, a ^ r2, r1), b ^ r2);
        VALUE("functions with state of their own: up to date", f() == vf_uf(2, vf_uf(1, a ^ r2, r1), b ^ r2, r3));
        EVALS("functions with state of their own: evaluated only when needed", e1 == m1.evaluations && e2 == m2.evaluations);
        if (i && again) COVER("changed");
        if (!again) COVER("same");
        if (vf_choose(2)) a = vf_nondet_i32();
        else b = vf_nondet_i32();
    }
}
using Body = std::array<int, 256>;
static Body body(int v) {
    Body r{};
    r[201] = v;
    return r;
}
