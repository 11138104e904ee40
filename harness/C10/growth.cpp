// BOUNDS: histories of 5 calls with arbitrary changes; heap blocks in use, and allocations that have been made, by the lazy function itself and for strings in its cache
#include "common/lazy_common.h"

// values that own memory: the ones in use at any time do not depend on the history
HARNESS(no_growth) {
    char c = 'a' + vf_choose(3);
    const int before = vf_live_heap();
    {
        auto f = lazy([](const std::string &s) { return s + s; }, [&] { return std::string(20, c); });
        f();
        const int once = vf_live_heap();
        for (int i = 0; i < BOUND(3, 5); ++i) {
            c = 'a' + vf_choose(3);
            f();
            CHECK("memory in use does not grow with the number of calls", vf_live_heap() == once);
        }
        COVER("called");
    }
    CHECK("all of it is released", vf_live_heap() == before);
}
