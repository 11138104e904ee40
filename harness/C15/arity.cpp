// BOUNDS: every combination of 0 to 6, 8, 9, 12 and 17 bound and 0 to 4 passed arguments; all values
#include "common/bind_common.h"
#include "common/arity.h"

using pigro::bind_back;
static constexpr auto all = [](auto &&...a) { return vf_uf(1, a...); };

HARNESS(sizes) {
    for_sizes_and<0, 6, 8, 9, 12, 17>([]<size_t... I>(std::index_sequence<I...>) {
        Values<sizeof...(I)> b;
        Values<4> x;
        auto f = bind_back(all, int(b[I])...);
        auto r = bind_back(all, b[I]...);
        for_sizes<0, 4>([&]<size_t... J>(std::index_sequence<J...>) {
            CHECK("bound values last", f(x[J]...) == vf_uf(1, x[J]..., b[I]...));
            CHECK("bound references last", r(x[J]...) == vf_uf(1, x[J]..., b[I]...));
        });
        auto c = b;
        if constexpr (sizeof...(I)) b[sizeof...(I) - 1] = vf_nondet_i32();
        CHECK("values are kept, references followed", f() == vf_uf(1, c[I]...) && r() == vf_uf(1, b[I]...));
    });
    COVER("end");
}

HARNESS(identities) {
    int x[4] = {}, b[2] = {};
    const int *seen[6];
    auto f = bind_back([&](auto &&...a) { size_t i = 0; ((seen[i++] = &a), ...); }, b[0], b[1]);
    for_sizes<0, 4>([&]<size_t... J>(std::index_sequence<J...>) {
        constexpr size_t n = sizeof...(J);
        f(x[J]...);
        CHECK("passed by reference", ((seen[J] == &x[J]) && ...) && seen[n] == &b[0] && seen[n + 1] == &b[1]);
        f(std::as_const(x[J])...);
        CHECK("constants passed by reference", ((seen[J] == &x[J]) && ...) && seen[n] == &b[0] && seen[n + 1] == &b[1]);
        f(std::move(x[J])...);
        CHECK("temporaries passed by reference", ((seen[J] == &x[J]) && ...) && seen[n] == &b[0] && seen[n + 1] == &b[1]);
    });
    COVER("end");
}
