// BOUNDS: any number of elements from 0 to 10, 12, 16, 17 and 33, of tuples and arrays (any: 1 to 12 and 17); all values, predicates and projections
#include "common/tuple_common.h"
#include "common/arity.h"

#include "pigro/tuple_algorithms.h"

using pigro::any;
using pigro::transform;

HARNESS(transform_sizes) {
    for_sizes_and<0, 10, 12, 16, 17, 33>([]<size_t... I>(std::index_sequence<I...>) {
        Values<sizeof...(I)> v;
        int calls = 0;
        auto f = [&](int x) { ++calls; return vf_uf(1, x); };
        const auto t = std::tuple{ v[I]... };
        auto r = transform(t, f);
        static_assert(std::tuple_size_v<decltype(r)> == sizeof...(I));
        CHECK("once for each", calls == sizeof...(I));
        CHECK("each of them", ((std::get<I>(r) == vf_uf(1, v[I])) && ...));
        CHECK("array", transform(std::array<int, sizeof...(I)>{ v[I]... }, f) == r);
    });
    COVER("end");
}

template<size_t n>
static void any_size() {
    [&]<size_t... I>(std::index_sequence<I...>) {
        Values<n> v;
        int calls = 0, expected = 0;
        auto p = [&](int x) { ++calls; return (vf_uf(1, x) & 1) != 0; };
        const bool r = any(std::tuple{ v[I]... }, p);
        bool found = false;
        ((found || (++expected, found = (vf_uf(1, v[I]) & 1) != 0)), ...);
        CHECK("whether there is one", r == found);
        CHECK("not further than the first", calls == expected);
        CHECK("array", any(std::array<int, n>{ v[I]... }, p) == found);
        if (found) COVER("found");
        if (!found) COVER("none");
    }(std::make_index_sequence<n>{});
}
HARNESS(any_1) { any_size<1>(); }
HARNESS(any_2) { any_size<2>(); }
HARNESS(any_3) { any_size<3>(); }
HARNESS(any_4) { any_size<4>(); }
HARNESS(any_5) { any_size<5>(); }
HARNESS(any_6) { any_size<6>(); }
HARNESS(any_7) { any_size<7>(); }
HARNESS(any_8) { any_size<8>(); }
HARNESS(any_9) { any_size<9>(); }
HARNESS(any_10) { any_size<10>(); }
HARNESS(any_11) { any_size<11>(); }
HARNESS(any_12) { any_size<12>(); }
HARNESS(any_17) { any_size<17>(); }
