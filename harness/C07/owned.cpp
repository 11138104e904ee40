// BOUNDS: lazy functions whose function and dependency keep state of 80 to 1024 bytes, or a string, vector, list or map that grows; copied or moved after 0 to 2 calls, 3 calls of either afterwards
#include "common/keeps.h"
template<typename S>
struct Expected {
    Keeps<S> dep, fun;
    Model<int, int> m;
    int last = 0;
    int operator()(int a) {
        const int v = dep();
        if (m.call(v, a)) last = fun(v, a);
        return last;
    }
};
template<typename S>
static void copied(const S &s) {
    int a = vf_nondet_i32();
    Expected<S> m{ { s }, { s } };
    auto f = lazy(m.fun, m.dep, [&] { return a; });
    for (int n = vf_pick(3); n; --n) {
        CHECK("before the copy", f() == m(a));
        a = vf_nondet_i32();
    }
    auto mc = m;
    auto c0 = f;
    auto c = c0;
    auto d = std::move(f);
    for (int i = 0; i < HIST(3); ++i) {
        if (vf_choose(2)) {
            CHECK("the moved one continues", d() == m(a));
            COVER("moved");
        } else {
            CHECK("the copy continues on its own", c() == mc(a));
            COVER("copy");
        }
        a = vf_nondet_i32();
    }
}
HARNESS(o_medium) { copied(std::array<int, 20>{ 1, 2, 3 }); }
HARNESS(o_large) { copied(std::array<int, 256>{ 1, 2, 3 }); }
HARNESS(o_string) { copied(std::string("abc")); }
HARNESS(o_long_string) { copied(std::string(30, 'b')); }
HARNESS(o_vector) { copied(std::vector<int>{ 7 }); }
HARNESS(o_list) { copied(List{ 7 }); }
HARNESS(o_map) { copied(Map{ { 0, 4 } }); }
