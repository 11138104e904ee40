// BOUNDS: every combination of 0 to 6, 8, 9, 12 and 17 bound and 0 to 4 passed arguments; all values
#include "common/bind_common.h"
#include "common/arity.h"

static constexpr auto all = [](auto &&...a) { return vf_uf(1, a...); };

HARNESS(front_sizes) {
    for_sizes_and<0, 6, 8, 9, 12, 17>([]<size_t... I>(std::index_sequence<I...>) {
        Values<sizeof...(I)> b;
        Values<4> x;
        auto f = compressed_tuple{ b[I]... } >> all;
        auto s = std::tuple{ b[I]... } >> all;
        for_sizes<0, 4>([&]<size_t... J>(std::index_sequence<J...>) {
            CHECK("bound arguments first", f(x[J]...) == vf_uf(1, b[I]..., x[J]...));
            CHECK("bound arguments first, std::tuple", s(x[J]...) == vf_uf(1, b[I]..., x[J]...));
        });
    });
    COVER("end");
}

HARNESS(back_sizes) {
    for_sizes_and<0, 6, 8, 9, 12, 17>([]<size_t... I>(std::index_sequence<I...>) {
        Values<sizeof...(I)> b;
        Values<4> x;
        auto f = compressed_tuple{ b[I]... } << all;
        auto s = std::tuple{ b[I]... } << all;
        for_sizes<0, 4>([&]<size_t... J>(std::index_sequence<J...>) {
            CHECK("bound arguments last", f(x[J]...) == vf_uf(1, x[J]..., b[I]...));
            CHECK("bound arguments last, std::tuple", s(x[J]...) == vf_uf(1, x[J]..., b[I]...));
        });
    });
    COVER("end");
}

// the very arguments: named ones, constants and temporaries
template<typename F>
static void identities(F f) {
    int x[4] = {};
    const int *seen[4];
    for_sizes<0, 4>([&]<size_t... J>(std::index_sequence<J...>) {
        f(seen, x[J]...);
        CHECK("passed by reference", ((seen[J] == &x[J]) && ...));
        f(seen, std::as_const(x[J])...);
        CHECK("constants passed by reference", ((seen[J] == &x[J]) && ...));
        f(seen, std::move(x[J])...);
        CHECK("temporaries passed by reference", ((seen[J] == &x[J]) && ...));
    });
    COVER("end");
}
HARNESS(front_identities) {
    identities(compressed_tuple{ 5 } >> [](int, auto &seen, auto &&...a) { size_t i = 0; ((seen[i++] = &a), ...); });
}
HARNESS(back_identities) {
    identities(compressed_tuple{ Empty{} } << [](auto &seen, auto &&...a) {
        size_t i = 0;
        auto one = [&](auto &v) { if constexpr (std::is_same_v<std::remove_cvref_t<decltype(v)>, int>) seen[i++] = &v; };
        (one(a), ...);
    });
}
