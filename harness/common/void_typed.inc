// BOUNDS: functions without result, with dependencies of 29 types (1 to 136 bytes, over-aligned, self-referring, polymorphic, optional, array, string, vector); 3 calls
#include "common/typed.h"

template<typename T>
static void typed() {
    unsigned char a = any_key<T>();
    const unsigned char v = any_key<T>();
    int runs = 0;
    auto f = lazy([&](const T &x, T y) {
        ++runs;
        CHECK("the current values", x == make<T>(a) && y == make<T>(v));
    }, [&] { return make<T>(a); }, make<T>(v));
    Model<unsigned char> m;
    for (int i = 0; i < HIST(3); ++i) {
        m.call(a);
        f();
        CHECK("runs when needed", runs == m.evaluations);
        a = any_key<T>();
    }
    COVER("end");
}
