// BOUNDS: any number of elements from 0 to 12, 16, 17 and 33; all values; enumerate_n up to 20, 32, 33 and 65
#include "common/tuple_common.h"
#include "common/arity.h"

#include "pigro/pack_algorithms.h"

using pigro::enumerate_n;
using pigro::enumerate_pack;

HARNESS(sizes) {
    for_sizes_and<0, 12, 16, 17, 33>([]<size_t... I>(std::index_sequence<I...>) {
        Values<sizeof...(I)> v;
        CHECK("each value, in order", enumerate_pack([](auto &&...i) { return vf_uf(1, i.value...); }, v[I]...) == vf_uf(1, v[I]...));
        CHECK("each index, in order", enumerate_pack([](auto &&...i) { return vf_uf(2, i.index...); }, v[I]...) == vf_uf(2, I...));
        CHECK("temporaries, in order", enumerate_pack([](auto &&...i) { return vf_uf(1, i.value...); }, int(v[I])...) == vf_uf(1, v[I]...));
        enumerate_pack([&](auto &&...i) { ((CHECK("named values themselves", &i.value == &v[i.index])), ...); }, v[I]...);
        enumerate_pack([&](auto &&...i) { ((CHECK("constants themselves", &i.value == &v[i.index])), ...); }, std::as_const(v[I])...);
        enumerate_pack([&](auto &&...i) { ((CHECK("temporaries themselves", &i.value == &v[i.index])), ...); }, std::move(v[I])...);
        int calls = 0;
        enumerate_pack([&](auto &&...i) { ++calls; static_assert(sizeof...(i) == sizeof...(I)); ((i.value = int(i.index)), ...); }, v[I]...);
        CHECK("called once", calls == 1);
        CHECK("written through", ((v[I] == int(I)) && ...));
    });
    COVER("end");
}

HARNESS(numbers) {
    for_sizes_and<0, 20, 32, 33, 65>([]<size_t... I>(std::index_sequence<I...>) {
        constexpr size_t n = sizeof...(I);
        CHECK("indices from 0 to n", enumerate_n<n>([](auto &&...i) { return vf_uf(2, i.index...); }) == vf_uf(2, I...));
        CHECK("values from 0 to n", enumerate_n<n>([](auto &&...i) { return vf_uf(2, i.value...); }) == vf_uf(2, I...));
    });
    COVER("end");
}
