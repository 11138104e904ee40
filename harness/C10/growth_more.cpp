// BOUNDS: histories of 60 (thorough: 300) calls, each after a change; heap blocks in use with strings, vectors and shared_ptr as values
#include "common/typed.h"

template<typename T>
static void steady() {
    make<T>(0);
    const int before = vf_live_heap();
    {
        unsigned char k = any_key<T>();
        auto g = lazy([](const T &x) { return x; }, [&] { return make<T>(k); });
        auto f = lazy([](const T &x, const T &y) { return x; }, g, make<T>(3));
        f();
        const int once = vf_live_heap();
        for (int i = 0; i < BOUND(60, 300); ++i) {
            ++k;
            f();
            CHECK("memory in use does not grow with the number of calls", vf_live_heap() == once);
        }
        const int two = vf_live_heap() + once - before;
        auto c = f;
        c();
        CHECK("a copy takes as much", vf_live_heap() == two);
    }
    CHECK("all of it is released", vf_live_heap() == before);
    COVER("end");
}
HARNESS(g_string) { steady<std::string>(); }
HARNESS(g_vector) { steady<std::vector<int>>(); }
HARNESS(g_int) { steady<int>(); }
HARNESS(g_large) { steady<Large>(); }
