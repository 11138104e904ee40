// BOUNDS: functions that keep state of 80 to 1024 bytes, or a string, vector, list or map that grows, as dependency and as the function itself; 4 calls
#include "common/keeps.h"
template<typename S>
static void keeps(const S &s) {
    int a = vf_nondet_i32(), e = 0;
    Keeps<S> k1{ s }, k2{ s }, kf{ s };
    auto g = lazy([k1](int) mutable { return k1(); }, [&] { return a; });
    auto f = lazy(kf, g, k2);
    Keeps<S> m1 = k1, m2 = k2, mf = kf;
    k1(), k2(), kf(1, 2); // those are copies
    Model<int> ag;
    Model<int, int> af;
    int vg = 0, vr = 0;
    for (int i = 0; i < HIST(4); ++i) {
        if (ag.call(a)) vg = m1();
        const int v2 = m2();
        if (af.call(vg, v2)) vr = mf(vg, v2);
        CHECK("state continues, in each of them", f() == vr);
        if (i && e == ag.evaluations) COVER("no evaluation of the inner one");
        e = ag.evaluations;
        if (vf_choose(2)) a = vf_nondet_i32();
    }
    COVER("end");
}
HARNESS(o_medium) { keeps(std::array<int, 20>{ 1, 2, 3 }); }
HARNESS(o_large) { keeps(std::array<int, 256>{ 1, 2, 3 }); }
HARNESS(o_string) { keeps(std::string("abc")); }
HARNESS(o_long_string) { keeps(std::string(30, 'b')); }
HARNESS(o_vector) { keeps(std::vector<int>{ 7 }); }
HARNESS(o_list) { keeps(List{ 7 }); }
HARNESS(o_map) { keeps(Map{ { 0, 4 } }); }
