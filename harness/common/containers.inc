// Containers of up to 70 elements of which any one changes, or their length
#include "common/lazy_common.h"

#include <array>
#include <deque>
#include <string>
#include <vector>

static const unsigned places[] = { 0, 8, 16, 33, 69 };
template<typename T>
static auto at(const unsigned place, const int value) {
    T t{};
    if constexpr (requires { t.resize(70); }) t.resize(70);
    t[place] = typename T::value_type(value);
    return t;
}
template<typename T>
static void containers() {
    const bool own = vf_choose(2); // the position changes, or the length
    unsigned p = places[own ? vf_pick(5) : 4];
    T a = at<T>(p, vf_nondet_i8());
    int e1 = 0, e2 = 0;
    auto g = lazy([&](const T &x) { ++e1; return x; }, [&]() -> const T & { return a; });
    auto f = lazy([&](const T &x, T y) { ++e2; return std::pair<T, T>{ x, y }; }, g, at<T>(5, 1));
    Model<T> m;
    for (int i = 0; i < HIST(3); ++i) {
        const bool again = m.call(a);
        const auto r = f();
        VALUE("the value is current", r.first == a);
        VALUE("the plain value is that of the construction", r.second == at<T>(5, 1));
        EVALS("evaluated only if any element differs", e2 == m.evaluations && e1 == m.evaluations);
        if (i && again) COVER("changed");
        if (!again) COVER("same");
        if constexpr (requires { a.pop_back(); })
            if (!own) {
                if (vf_choose(2)) a.pop_back();
                else a.push_back(typename T::value_type(vf_nondet_i8()));
                continue;
            }
        a[p] = typename T::value_type(vf_nondet_i8());
    }
}
