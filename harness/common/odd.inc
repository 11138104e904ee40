// BOUNDS: values, results and intermediate results of 28 further types (1 to 1500 bytes, over-aligned, self-referring, without default, polymorphic, bit-fields, shared_ptr, arrays of strings, a list with a greedy constructor, final, union, without conversions or comma, function, member pointer, reference_wrapper, tuples, string view, variant, nested optional, bits); 3 calls
#include "common/typed.h"

// as a plain value, through a function, and through a lazy function
template<typename T>
static void flow() {
    const unsigned char v = any_key<T>();
    unsigned char a = any_key<T>();
    int e1 = 0, e2 = 0;
    auto g = lazy([&](auto &&x) { ++e1; return x; }, [&] { return make<T>(a); });
    auto f = lazy([&](T x, const T &y, int) { ++e2; return std::pair<T, T>{ x, y }; }, make<T>(v), g, 7);
    static_assert(std::is_same_v<decltype(g()), T>);
    EVALS("nothing is evaluated at construction", e1 == 0 && e2 == 0);
    Model<unsigned char> m;
    for (int i = 0; i < HIST(3); ++i) {
        bool again = m.call(a);
        auto r = f();
        VALUE("the plain value arrives intact", r.first == make<T>(v));
        VALUE("the value of the lazy function arrives intact", r.second == make<T>(a));
        EVALS("the outer function is evaluated only when needed", e2 == m.evaluations);
        VALUE("the value of the function arrives intact", g() == make<T>(a));
        EVALS("the inner functions are evaluated only when needed", e1 == 2 * m.evaluations);
        if (i && again) COVER("changed");
        if (!again) COVER("same");
        a = any_key<T>();
    }
}
// a chain of lazy functions
template<typename T>
static void passed_on() {
    unsigned char now = any_key<T>();
    int version = 0, e1 = 0, e2 = 0, e3 = 0;
    auto g = lazy([&](int) -> T { ++e1; return make<T>(now); }, [&] { return version; });
    auto h = lazy([&](const T &x) -> T { ++e2; return x; }, g);
    auto f = lazy([&](T x, const T &y) {
        ++e3;
        VALUE("both belong to the same state", x == make<T>(now) && y == make<T>(now));
        return x;
    }, h, g);
    Model<unsigned char> m;
    for (int i = 0; i < HIST(3); ++i) {
        m.call(now);
        VALUE("up to date", f() == make<T>(now));
        EVALS("evaluated upon each change of the source", e1 == 2 * (i + 1));
        EVALS("evaluated if the intermediate results differ", e2 == m.evaluations && e3 == m.evaluations);
        ++version;
        now = any_key<T>();
    }
    COVER("end");
}
