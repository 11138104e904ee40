// BOUNDS: intermediate results of 37 of 50 types (all those of C01), passed on along a chain with a side input and joined again at the top; 3 calls with arbitrary results in between
#define CHECK_VALUES
#define CHECK_EVALS
#include "common/types.h"

template<typename T, typename Any = T>
static void passed_on() {
    T now = any_value<Any>();
    int version = 0, side = vf_nondet_i32(), e1 = 0, e2 = 0, e3 = 0;
    auto g = lazy([&](int) -> T { ++e1; return now; }, [&] { return version; });
    auto h = lazy([&](const T &x, int y) -> T {
        ++e2;
        CHECK("the arguments are current", x == now && y == side);
        return x;
    }, g, [&] { return side; });
    auto f = lazy([&](T x, const T &y) {
        ++e3;
        CHECK("both belong to the same state", x == now && y == now);
        return e3;
    }, h, g);
    Model<T, int> middle;
    Model<T> top;
    for (int i = 0; i < HIST(3); ++i) {
        middle.call(now, side), top.call(now);
        CHECK("up to date", f() == top.evaluations);
        CHECK("evaluated upon each change of the source", e1 == 2 * (i + 1));
        CHECK("evaluated if the result or the side input differs", e2 == middle.evaluations);
        CHECK("evaluated if the intermediate results differ", e3 == top.evaluations);
        if (i && e3 == i) COVER("stopped");
        if (e3 == i + 1) COVER("passed on");
        ++version;
        if (vf_choose(2)) side = vf_nondet_i32();
        else now = any_value<Any, false>();
    }
}
