// Containers of nodes (list, map, set), nested containers
#include "common/lazy_common.h"
#include "common/nodes.h"

#include <string>
#include <vector>

using List = std::list<int>;
using Map = std::map<int, char>;
using Set = std::set<int>;
using Names = std::map<int, std::string>;
using Rows = std::vector<std::vector<int>>;
static int two() { return vf_choose(2); }

template<typename T>
static T build() {
    if constexpr (std::is_same_v<T, List>) {
        List l{ 1, 2, vf_nondet_i8() };
        if (two()) l.push_back(1);
        return l;
    } else if constexpr (std::is_same_v<T, Map>) return { { 3, char(vf_nondet_i8()) }, { two() ? 1 : 5, 'x' } };
    else if constexpr (std::is_same_v<T, Set>) return { 3, 4, two() ? 1 : 5 };
    else if constexpr (std::is_same_v<T, Names>) return { { 3, "a" }, { 4, std::string(18, char(vf_nondet_i8())) } };
    else {
        Rows r(3);
        r[1].push_back(vf_nondet_i8());
        if (two()) r[2].push_back(4);
        return r;
    }
}
template<typename T>
static void nodes() {
    T a = build<T>();
    const T v0 = build<T>();
    T v = v0;
    int e1 = 0, e2 = 0;
    auto g = lazy([&](T x) { ++e1; return x; }, [&] { return a; });
    auto f = lazy([&](const T &x, T y) { ++e2; return std::pair<T, T>{ x, y }; }, g, v);
    v = T{};
    Model<T> m;
    for (int i = 0; i < HIST(3); ++i) {
        const bool again = m.call(a);
        const auto r = f();
        VALUE("the value is current", r.first == a);
        VALUE("the plain value is that of the construction", r.second == v0);
        EVALS("evaluated only if any element differs", e2 == m.evaluations && e1 == m.evaluations);
        if (i && again) COVER("changed");
        if (!again) COVER("same");
        a = build<T>();
    }
}
