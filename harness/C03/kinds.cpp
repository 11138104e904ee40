// BOUNDS: functions given as lambda, function pointer, std::function, function object (const and non-const calls) and member pointer, two instances of the same type; 4 calls
#include "common/lazy_common.h"

static int source, asked;
static int ask() { ++asked; return source; }

HARNESS(pointer) {
    source = vf_nondet_i32(), asked = 0;
    auto f = lazy([](int x, int y) { return vf_uf(1, x, y); }, ask, &ask);
    for (int i = 1; i <= 3; ++i) {
        CHECK("up to date", f() == vf_uf(1, source, source));
        CHECK("each function pointer is called once for each call", asked == 2 * i);
        source = vf_nondet_i32();
    }
    COVER("end");
}

HARNESS(erased) {
    int a = vf_nondet_i32(), n = 0;
    std::function<int()> d = [&a, &n, s = 0]() mutable { ++n; return vf_uf(1, a, ++s); };
    auto f = lazy(std::function<int(int)>{ [s = 0](int x) mutable { return vf_uf(2, x, ++s); } }, d);
    Model<int> m;
    for (int i = 1; i <= 3; ++i) {
        m.call(vf_uf(1, a, i));
        CHECK("state of both is kept", f() == vf_uf(2, vf_uf(1, a, i), m.evaluations));
        CHECK("called once for each call", n == i);
        a = vf_nondet_i32();
    }
    CHECK("the original has a state of its own", d() == vf_uf(1, a, 1));
    COVER("end");
}

struct Both {
    int n, *consts, *nonconsts;
    int operator()() { ++*nonconsts; return ++n; }
    int operator()() const { ++*consts; return n; }
};
HARNESS(overloaded) {
    int c = 0, nc = 0;
    const int start = vf_nondet_i32();
    auto f = lazy([](int x) { return vf_uf(1, x); }, Both{ start, &c, &nc });
    int n = start;
    for (int i = 1; i <= 3; ++i) {
        n = int(unsigned(n) + 1);
        CHECK("called as non-const", f() == vf_uf(1, n) && nc == i && c == 0);
    }
    COVER("end");
}

// made by the same expression: independent of each other
static auto make(int start, int *asked) {
    return lazy([s = start](int x) mutable { return s = vf_uf(1, s, x); }, [start, asked]() mutable { ++*asked; return start = vf_uf(2, start); });
}
HARNESS(instances) {
    int s1 = vf_nondet_i32(), s2 = vf_nondet_i32(), a1 = 0, a2 = 0, c1 = 0, c2 = 0;
    auto f1 = make(s1, &a1);
    auto f2 = make(s2, &a2);
    int d1 = s1, d2 = s2;
    std::optional<int> l1, l2;
    for (int i = 0; i < HIST(4); ++i) {
        if (vf_nondet_bool()) {
            ++c1;
            d1 = vf_uf(2, d1);
            if (l1 != d1) s1 = vf_uf(1, s1, d1);
            l1 = d1;
            CHECK("state of the first", f1() == s1);
        } else {
            ++c2;
            d2 = vf_uf(2, d2);
            if (l2 != d2) s2 = vf_uf(1, s2, d2);
            l2 = d2;
            CHECK("state of the second", f2() == s2);
        }
        CHECK("asked once for each call", a1 == c1 && a2 == c2);
    }
    if (c1 && c2) COVER("both");
}
