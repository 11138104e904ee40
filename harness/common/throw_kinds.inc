// one of several kinds of exceptions, thrown at one of the levels: raise(kind, code) and kind_of(f, value, code) are given
#include "common/lazy_common.h"

template<int level>
static void at_level() {
    int a = vf_nondet_i32(), b = vf_nondet_i32(), e = 0;
    const unsigned kind = vf_pick(kinds);
    const int code = vf_nondet_i32();
    bool fail = false;
    auto step = [&](int l) { if (fail && l == level) raise(kind, code); };
    auto g = lazy([&](int x) { step(0); return vf_uf(1, x); }, [&] { return a; });
    auto f = lazy([&](int x, int y, int z) { ++e; step(2); return vf_uf(2, x, y, z); }, g, [&] { step(1); return b; }, 3);
    int evaluated = 0;
    bool known = false; // what is cached belongs to these
    int ka = 0, kb = 0;
    for (int i = 0; i < HIST(3); ++i) {
        fail = vf_nondet_bool();
        const bool same = known && vf_uf(1, ka) == vf_uf(1, a) && kb == b, same_a = known && ka == a;
        int value = 0;
        const int thrown = kind_of(f, value, code);
        if (fail && thrown != -1) {
            CHECK("what has been thrown arrives", thrown == int(kind));
            CHECK("only if something has been evaluated", level == 1 || level == 0 ? !(level == 0 && same_a) : !same);
            known = false, evaluated = e;
            COVER("thrown");
        } else {
            CHECK("nothing else is thrown", thrown == -1);
            CHECK("up to date", value == vf_uf(2, vf_uf(1, a), b, 3));
            CHECK("evaluated at most once", e - evaluated <= 1 && (!same || e == evaluated));
            CHECK("a failure is not hidden", !fail || (level == 0 ? same_a : level == 2 && same));
            known = true, ka = a, kb = b, evaluated = e;
        }
        if (i != 1) a = vf_nondet_i32();
        else b = vf_nondet_i32();
    }
    COVER("end");
}
HARNESS(lazy_dependency) { at_level<0>(); }
HARNESS(dependency) { at_level<1>(); }
HARNESS(function) { at_level<2>(); }
