// BOUNDS: any number of uncaptured values from 1 to 9, 12 and 17, functions with state (8 and 84 bytes), 0 to 4 arguments; tuples of 0 to 10, 12, 16, 17 and 33 elements; all values
#include "common/tuple_common.h"
#include "common/arity.h"

#include <functional>

#include "pigro/to_tuple.h"
#include "pigro/uncapture.h"

using pigro::to_tuple;
using pigro::uncaptured;

HARNESS(uncaptured_sizes) {
    for_sizes_and<1, 9, 12, 17>([]<size_t... I>(std::index_sequence<I...>) {
        Values<sizeof...(I)> v;
        Values<3> x;
        auto f = uncaptured(v[I]...) >> [](auto... a) { return vf_uf(1, a...); };
        const auto c = f;
        for_sizes<0, 3>([&]<size_t... J>(std::index_sequence<J...>) {
            CHECK("behind the arguments", f(x[J]...) == vf_uf(1, x[J]..., v[I]...));
            CHECK("constant", c(x[J]...) == vf_uf(1, x[J]..., v[I]...));
        });
        CHECK("only the values take space", sizeof(f) == sizeof...(I) * sizeof(int));
        auto s = uncaptured(Tag<I>{}...) >> [](auto... t) { return vf_uf(1, t.id()...); };
        CHECK("stateless ones, in order", s() == vf_uf(1, int(I) + 40 ...));
    });
    COVER("end");
}

// a function with state of its own, and the very arguments
template<size_t room>
struct Counting {
    int n;
    int more[room] = {};
    int operator()(auto &&...a) { return n = vf_uf(1, n, a...); }
};
template<size_t room>
static void stateful() {
    for_sizes_and<1, 9, 12, 17>([]<size_t... I>(std::index_sequence<I...>) {
        Values<sizeof...(I)> v;
        Values<3> x;
        const int start = vf_nondet_i32();
        for_sizes<0, 3>([&]<size_t... J>(std::index_sequence<J...>) {
            auto f = uncaptured(v[I]...) >> Counting<room>{ start };
            const int one = vf_uf(1, start, x[J]..., v[I]...), two = vf_uf(1, one, x[J]..., v[I]...), three = vf_uf(1, two, x[J]..., v[I]...);
            CHECK("the first call", f(x[J]...) == one);
            auto c = f;
            CHECK("state is kept", f(x[J]...) == two);
            CHECK("also in the copy", c(x[J]...) == two);
            auto m = std::move(c);
            CHECK("moved along", m(x[J]...) == three);
            CHECK("and not shared", f(x[J]...) == three);
        });
    });
    COVER("end");
}
HARNESS(stateful_small) { stateful<1>(); }
HARNESS(stateful_large) { stateful<20>(); }
HARNESS(identities) {
    for_sizes_and<1, 5, 9>([]<size_t... I>(std::index_sequence<I...>) {
        Values<sizeof...(I)> v;
        int x[4] = {};
        for_sizes<0, 4>([&]<size_t... J>(std::index_sequence<J...>) {
            constexpr size_t k = sizeof...(J);
            const void *seen[k + sizeof...(I)];
            unsigned kinds = 0;
            auto f = uncaptured(v[I]...) >> [&](auto &&...a) {
                size_t i = 0;
                ((seen[i++] = &a), ...);
                i = 0, kinds = 0;
                ((kinds = i++ < k ? kinds * 4 + std::is_lvalue_reference_v<decltype(a)> * 2 + std::is_const_v<std::remove_reference_t<decltype(a)>> : kinds), ...);
            };
            auto expected = [](unsigned kind) { unsigned r = 0; for (size_t i = 0; i < k; ++i) r = r * 4 + kind; return r; };
            f(x[J]...);
            CHECK("the arguments themselves", ((seen[J] == &x[J]) && ...) && kinds == expected(2));
            f(std::as_const(x[J])...);
            CHECK("constant arguments", ((seen[J] == &x[J]) && ...) && kinds == expected(3));
            f(std::move(x[J])...);
            CHECK("temporary arguments", ((seen[J] == &x[J]) && ...) && kinds == expected(0));
            const auto c = f;
            c(std::move(x[J])...);
            CHECK("temporary arguments, constant", ((seen[J] == &x[J]) && ...) && kinds == expected(0));
            c(x[J]...);
            CHECK("the arguments themselves, constant", ((seen[J] == &x[J]) && ...) && kinds == expected(2));
        });
    });
    COVER("end");
}

template<typename Make>
static void sizes(Make make) {
    for_sizes_and<0, 10, 12, 16, 17, 33>([=]<size_t... I>(std::index_sequence<I...>) {
        Values<sizeof...(I)> v;
        auto t = make(v[I]...);
        const auto &c = t;
        auto r = to_tuple(t);
        auto k = to_tuple(c);
        auto m = to_tuple(std::move(t));
        static_assert(std::is_same_v<decltype(r), std::tuple<std::conditional_t<I == I, int &, void>...>>);
        static_assert(std::is_same_v<decltype(k), std::tuple<std::conditional_t<I == I, const int &, void>...>>);
        static_assert(std::is_same_v<decltype(m), std::tuple<std::conditional_t<I == I, int &&, void>...>>);
        CHECK("all of the elements", ((std::get<I>(r) == v[I] && std::get<I>(k) == v[I] && std::get<I>(m) == v[I]) && ...));
        CHECK("the elements themselves", ((&std::get<I>(r) == &std::get<I>(k)) && ...));
        ((std::get<I>(r) = v[sizeof...(I) - I]), ...);
        CHECK("written through", ((std::get<I>(to_tuple(t)) == v[sizeof...(I) - I] && std::get<I>(m) == v[sizeof...(I) - I]) && ...));
    });
    COVER("end");
}
HARNESS(compressed_sizes) { sizes([](auto... v) { return compressed_tuple{ v... }; }); }
HARNESS(std_sizes) { sizes([](auto... v) { return std::tuple{ v... }; }); }
