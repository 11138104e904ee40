// BOUNDS: elements of 40 types, named, constant and temporary ones; all values of 8 bits
#include "common/tuple_common.h"
#include "common/sweep.h"

#include "pigro/pack_algorithms.h"

using pigro::enumerate_pack;
static constexpr auto check = []<typename T>(Each<T>) {
    const unsigned char k = any_key<T>(), l = any_key<T>();
    T x = sample<T>(k), z = sample<T>(l);
    const T y = sample<T>(l);
    int calls = 0;
    enumerate_pack([&](auto &&a, auto &&b, auto &&c, auto &&d, auto &&e) {
        ++calls;
        CHECK("indices", a.index == 0 && b.index == 1 && c.index == 2 && d.index == 3 && e.index == 4);
        CHECK("the elements themselves", &a.value == &x && &b.value == &y && &c.value == &z);
        CHECK("their values", a.value == sample<T>(k) && b.value == sample<T>(l) && c.value == sample<T>(l) && d.value == sample<T>(k) && e.value == 7);
        static_assert(std::is_same_v<decltype(a.value), T &> && std::is_same_v<decltype(b.value), const T &> && std::is_same_v<decltype(c.value), T &&>);
    }, x, y, std::move(z), sample<T>(k), 7);
    CHECK("once", calls == 1 && z == sample<T>(l));
    const T m = enumerate_pack([](auto &&a) { return T(std::forward<decltype(a.value)>(a.value)); }, std::move(x));
    CHECK("moved", m == sample<T>(k));
    enumerate_pack([&](auto &&, auto &&a) { a.value = sample<T>(k); }, 1, z);
    CHECK("written", z == sample<T>(k));
    CHECK("repeated", enumerate_pack([&](auto &&...i) { return ((&i.value == &z) && ...) && ((i.value == sample<T>(k)) && ...); }, z, z, z, z));
};
