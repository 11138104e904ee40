// BOUNDS: dependencies and results of 10 types (numbers, structs of up to 136 bytes, over-aligned, self-referring, optional, string, vector), directly, below a lazy function and as captured value; 3 calls
#include "common/typed.h"

// each function is asked once, and plain values are those at construction
template<typename T>
static void once() {
    unsigned char a = any_key<T>(), b = any_key<T>(), na = 0, nb = 0, runs = 0;
    const unsigned char v0 = any_key<T>();
    T v = make<T>(v0);
    auto g = lazy([&](const T &x) { return x; }, [&] { ++na; return make<T>(a); });
    auto f = lazy([&, n = 0](const T &x, T y, const T &z) mutable {
        CHECK("the captured value is the one at construction", z == make<T>(v0));
        ++runs;
        return std::pair<T, int>{ y, ++n };
    }, g, [&] { ++nb; return make<T>(b); }, v);
    CHECK("no dependency is evaluated at construction", na == 0 && nb == 0 && runs == 0);
    Model<unsigned char, unsigned char> m;
    for (int i = 1; i <= 3; ++i) {
        v = make<T>(any_key<T>());
        m.call(a, b);
        auto r = f();
        CHECK("up to date", r.first == make<T>(b));
        CHECK("the function keeps its state", r.second == m.evaluations);
        CHECK("evaluated when needed", runs == m.evaluations);
        CHECK("the nested dependency is evaluated once for each call", na == i);
        CHECK("the direct dependency is evaluated once for each call", nb == i);
        if (i == 1) a = any_key<T>();
        else b = any_key<T>();
    }
    COVER("end");
}
