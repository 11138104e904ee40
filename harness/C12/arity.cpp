// BOUNDS: tuples of 1 to 8, 10, 12, 16 and 17 references, and with values and references in turn; all values; any one written
#include "common/tuple_common.h"
#include "common/arity.h"

HARNESS(all_references) {
    const unsigned pick = vf_pick(8);
    for_sizes_and<1, 8, 10, 12, 16, 17>([=]<size_t... I>(std::index_sequence<I...>) {
        constexpr size_t n = sizeof...(I);
        Values<n> v;
        auto t = compressed_tuple<std::conditional_t<I == I, int &, void>...>{ v[I]... };
        const auto &c = t;
        auto u = t;
        CHECK("the variables themselves", ((&pigro::get<I>(t) == &v[I] && &pigro::get<I>(u) == &v[I]) && ...));
        CHECK("through const and temporaries", ((&pigro::get<I>(c) == &v[I]) && ...));
        const unsigned k = (n > 8 ? n - 1 - pick : pick % n);
        const int w = vf_nondet_i32();
        ((I == k ? void(pigro::get<I>(u) = w) : void()), ...);
        CHECK("written through", ((pigro::get<I>(t) == v[I]) && ...) && v[k] == w);
    });
    COVER("end");
}

HARNESS(in_turn) {
    for_sizes_and<1, 8, 10, 12, 16, 17>([]<size_t... I>(std::index_sequence<I...>) {
        constexpr size_t n = sizeof...(I);
        Values<n> v, w = v;
        auto t = compressed_tuple<std::conditional_t<I % 2, int &, int>...>{ v[I]... };
        const auto &c = t;
        for (size_t i = 0; i < n; ++i) v[i] = vf_nondet_i32();
        CHECK("references alias, values do not", ((pigro::get<I>(t) == (I % 2 ? v[I] : w[I])) && ...));
        CHECK("const refers to the same objects", ((&pigro::get<I>(c) == &pigro::get<I>(t)) && ...));
        static_assert((std::is_same_v<decltype(pigro::get<I>(t)), int &> && ...));
        static_assert((std::is_same_v<decltype(pigro::get<I>(std::move(t))), std::conditional_t<I % 2, int &, int &&>> && ...));
        auto moved = [&]<size_t K>(std::integral_constant<size_t, K>) { auto &&r = pigro::get<K>(std::move(t)); return &r == &pigro::get<K>(t); };
        CHECK("temporaries refer to the same objects", (moved(std::integral_constant<size_t, I>{}) && ...));
    });
    COVER("end");
}

HARNESS(tracked_elements) {
    for_sizes<1, 5>([]<size_t... I>(std::index_sequence<I...>) {
        Tracked::reset();
        Values<sizeof...(I)> v;
        {
            auto t = compressed_tuple{ Tracked{ v[I] }... };
            const auto &c = t;
            const int copies = Tracked::copies, moves = Tracked::moves;
            CHECK("access copies nothing", ((pigro::get<I>(t).v == v[I] && pigro::get<I>(c).v == v[I] && pigro::get<I>(c).valid) && ...) && Tracked::copies == copies && Tracked::moves == moves);
            Tracked m = pigro::get<sizeof...(I) - 1>(std::move(t));
            CHECK("moved out of a temporary", m.v == v[sizeof...(I) - 1] && Tracked::copies == copies && !pigro::get<sizeof...(I) - 1>(t).valid);
            CHECK("only that one", ((pigro::get<I>(t).valid == (I + 1 != sizeof...(I))) && ...));
        }
        CHECK("destroyed", Tracked::alive == 0);
    });
    COVER("end");
}
