// BOUNDS: tuples of any number of elements from 0 to 10, 12, 16, 17 and 33, as lvalue, constant and temporary; all values
#include "common/tuple_common.h"
#include "common/arity.h"

#include "pigro/apply.h"

static constexpr auto all = [](auto &&...a) { return vf_uf(1, a...); };
static constexpr auto kinds = [](auto &&...a) {
    unsigned r = 1;
    ((r = r * 4 + (std::is_lvalue_reference_v<decltype(a)> ? 1 : 2) + (std::is_const_v<std::remove_reference_t<decltype(a)>> ? 1 : 0)), ...);
    return r;
};
static unsigned kind(size_t n, unsigned k) {
    unsigned r = 1;
    while (n--) r = r * 4 + k;
    return r;
}

template<typename Make>
static void sizes(Make make) {
    for_sizes_and<0, 10, 12, 16, 17, 33>([=]<size_t... I>(std::index_sequence<I...>) {
        constexpr size_t n = sizeof...(I);
        Values<n> v;
        auto t = make(v[I]...);
        const auto c = t;
        CHECK("all of the elements", pigro::apply(all, t) == vf_uf(1, v[I]...));
        CHECK("of a constant", pigro::apply(all, c) == vf_uf(1, v[I]...));
        CHECK("of a temporary", pigro::apply(all, make(v[I]...)) == vf_uf(1, v[I]...));
        CHECK("as lvalues", pigro::apply(kinds, t) == kind(n, 1));
        CHECK("as constants", pigro::apply(kinds, c) == kind(n, 2));
        CHECK("as temporaries", pigro::apply(kinds, std::move(t)) == kind(n, 2));
        int calls = 0;
        pigro::apply([&](auto &&...a) { ++calls; ((a = v[n]), ...); }, t);
        CHECK("called once", calls == 1);
        CHECK("the elements themselves", pigro::apply(all, t) == vf_uf(1, (void(I), v[n])...));
    });
    COVER("end");
}
HARNESS(compressed_sizes) { sizes([](auto... v) { return compressed_tuple{ v... }; }); }
HARNESS(std_sizes) { sizes([](auto... v) { return std::tuple{ v... }; }); }
HARNESS(array_sizes) { sizes([](auto... v) { return std::array<int, sizeof...(v)>{ v... }; }); }
