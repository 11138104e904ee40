// BOUNDS: a copy made at any point in a history of 4 to 5 operations (change the source, call either of them, copy), with arbitrary values
#include "common/lazy_common.h"

HARNESS(copy_anytime) {
    int a = vf_nondet_i32(), evals = 0;
    auto f = lazy([&](int x) { ++evals; return vf_uf(1, x); }, [&] { return a; });
    Model<int> m;
    for (int n = vf_pick(3); n; --n) {
        m.call(a);
        CHECK("up to date, before the copy", f() == vf_uf(1, a));
        a = vf_nondet_i32();
    }
    auto c = f;
    CHECK("copying evaluates nothing", evals == m.evaluations);
    Model<int> mc = m;
    mc.evaluations = 0;
    for (int i = 0; i < BOUND(4, 6); ++i) {
        switch (vf_choose(3)) {
        case 0: a = vf_nondet_i32(); COVER("change"); break;
        case 1:
            m.call(a);
            CHECK("the original is up to date", f() == vf_uf(1, a));
            COVER("original");
            break;
        default:
            mc.call(a);
            CHECK("the copy is up to date", c() == vf_uf(1, a));
            COVER("copy");
        }
        CHECK("each is evaluated only when it needs to", evals == m.evaluations + mc.evaluations);
    }
}

// state of their own
HARNESS(copy_state) {
    int start = vf_nondet_i32();
    auto f = lazy([s = start](int x) mutable { return s = vf_uf(1, s, x); }, [n = start]() mutable { return n = int(unsigned(n) + 1); });
    auto next = [](int &s, int &n) { n = int(unsigned(n) + 1); return s = vf_uf(1, s, n); };
    int fs = start, fn = start;
    for (int n = vf_pick(3); n; --n) CHECK("state of the original, before the copy", f() == next(fs, fn));
    auto c = f;
    int cs = fs, cn = fn;
    for (int i = 0; i < HIST(4); ++i) {
        if (vf_nondet_bool()) {
            CHECK("state of the original", f() == next(fs, fn));
            COVER("original");
        } else {
            CHECK("state of the copy", c() == next(cs, cn));
            COVER("copy");
        }
    }
}
