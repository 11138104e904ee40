// BOUNDS: lazy functions of results of 30 types (numbers to 136 bytes, over-aligned, self-referring, optional, shared_ptr, string, vector), with and without lazy dependency, copied or moved after 0 to 2 calls, with 2 to 3 calls of either afterwards
#include "common/typed.h"

template<typename T>
static void copied() {
    unsigned char a = any_key<T>();
    const unsigned char v = any_key<T>();
    int e1 = 0, e2 = 0;
    auto g = lazy([&](const T &x) { ++e1; return x; }, [&] { return make<T>(a); });
    auto f = lazy([&](const T &x, const T &y) { ++e2; return std::pair<T, T>{ x, y }; }, g, make<T>(v));
    Model<unsigned char> m;
    for (int n = vf_pick(3); n; --n) {
        m.call(a);
        CHECK("up to date, before the copy", f().first == make<T>(a));
        a = any_key<T>();
    }
    const auto c0 = f;
    auto mc = m;
    mc.evaluations = 0;
    auto c = c0;
    auto d = std::move(f);
    CHECK("copying evaluates nothing", e1 == m.evaluations && e2 == m.evaluations);
    const unsigned order = vf_pick(4);
    for (int i = 0; i < HIST(2); ++i) {
        if (order >> i & 1) {
            m.call(a);
            auto r = d();
            CHECK("the moved one is up to date", r.first == make<T>(a) && r.second == make<T>(v));
            COVER("moved");
        } else {
            mc.call(a);
            auto r = c();
            CHECK("the copy is up to date", r.first == make<T>(a) && r.second == make<T>(v));
            COVER("copy");
        }
        CHECK("inner functions are evaluated only when needed", e1 == m.evaluations + mc.evaluations);
        CHECK("outer functions are evaluated only when needed", e2 == m.evaluations + mc.evaluations);
        if (i == 0 && vf_nondet_bool()) a = any_key<T>();
    }
}
