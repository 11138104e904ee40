// BOUNDS: results of 10 types (numbers, structs of up to 136 bytes, pair, optional, string, vector) that hide changes of an arbitrary source, through arbitrary functions; 4 calls
#include "common/lazy_common.h"

#include <array>

struct Large {
    long head;
    int body[30];
    char tail;
    bool operator==(const Large &) const = default;
};
template<typename T>
static T make(int key) {
    if constexpr (std::is_same_v<T, std::string>) return std::string(1 + (key & 1), char('a' + (key & 3)));
    else if constexpr (std::is_same_v<T, std::vector<int>>) return std::vector<int>(1 + (key & 1), key);
    else if constexpr (std::is_same_v<T, std::pair<std::string, int>>) return { std::string(20, 'x'), key };
    else if constexpr (std::is_same_v<T, Point>) return { 3, key };
    else if constexpr (std::is_same_v<T, Padded>) return { 'c', key, 4 };
    else if constexpr (std::is_same_v<T, Large>) {
        Large r{};
        r.body[29] = key;
        return r;
    } else if constexpr (std::is_same_v<T, std::optional<int>>) return key & 1 ? std::optional<int>{ key } : std::nullopt;
    else return T(key);
}

// g hides changes of a; f depends on it, next to a function
template<typename T>
static void cut() {
    auto h = [](int x) { return vf_uf(1, x) & 3; };
    int a = vf_nondet_i32(), b = vf_nondet_i32(), e1 = 0, e2 = 0;
    auto g = lazy([&](int x) { ++e1; return make<T>(h(x)); }, [&] { return a; });
    auto f = lazy([&](const T &x, int y) { ++e2; return std::pair<T, int>{ x, y }; }, g, [&] { return b; });
    Model<int> m1;
    Model<T, int> m2;
    for (int i = 0; i < HIST(3); ++i) {
        const T t = make<T>(h(a));
        const bool inner = m1.call(a), outer = m2.call(t, b);
        auto r = f();
        CHECK("up to date", r.first == t && r.second == b);
        CHECK("the inner function is evaluated only if its source changed", e1 == m1.evaluations);
        CHECK("the outer function is evaluated only if a value changed", e2 == m2.evaluations);
        if (i && inner && !outer) COVER("cut off");
        if (i && inner && outer) COVER("changed");
        if (i && !inner && !outer) COVER("unchanged");
        a = vf_nondet_i32();
        if (i == 1) b = vf_nondet_i32();
    }
}
