// BOUNDS: tuples of any number of elements from 1 to 18, 24 and 33, all stateful and with every other one stateless; all values, any one of them written
#include "common/tuple_common.h"
#include "common/arity.h"

#define ANY vf_nondet_i32()

HARNESS(all_stateful) {
    const unsigned pick = vf_pick(18);
    for_sizes_and<1, 18, 24, 33>([=]<size_t... I>(std::index_sequence<I...>) {
        constexpr size_t n = sizeof...(I);
        Values<n> v;
        auto t = compressed_tuple{ v[I]... };
        CHECK("each value at its index", ((pigro::get<I>(t) == v[I]) && ...));
        CHECK("only the values take space", sizeof(t) == n * sizeof(int) && std::tuple_size_v<decltype(t)> == n);
        auto u = t;
        const unsigned k = (n > 18 ? n - 1 - pick : pick % n);
        const int w = ANY;
        ((I == k ? void(pigro::get<I>(t) = w) : void()), ...);
        CHECK("only the one that is written changes", ((pigro::get<I>(t) == (I == k ? w : v[I])) && ...));
        CHECK("not the copy", ((pigro::get<I>(u) == v[I]) && ...));
        const auto c = std::move(t);
        CHECK("moved", ((pigro::get<I>(c) == (I == k ? w : v[I])) && ...));
    });
    COVER("end");
}

template<size_t I, bool odd>
static auto element(int v) {
    if constexpr (I % 2 == odd) return v;
    else return Tag<I>{};
}
template<typename T>
static int number(const T &x) {
    if constexpr (std::is_same_v<T, int>) return x;
    else return x.id();
}
template<bool odd>
static void half() {
    for_sizes_and<1, 14, 17, 33>([]<size_t... I>(std::index_sequence<I...>) {
        constexpr size_t n = sizeof...(I);
        Values<n> v;
        auto t = compressed_tuple{ element<I, odd>(v[I])... };
        CHECK("each value at its index, next to stateless ones", ((number(pigro::get<I>(t)) == (I % 2 == odd ? v[I] : int(I) + 40)) && ...));
        constexpr size_t ints = ((I % 2 == odd) + ...);
        CHECK("stateless ones take no space", sizeof(t) == (ints ? ints * sizeof(int) : 1));
        const auto u = t;
        CHECK("copied", ((number(pigro::get<I>(u)) == (I % 2 == odd ? v[I] : int(I) + 40)) && ...));
    });
    COVER("end");
}
HARNESS(stateless_odd) { half<false>(); }
HARNESS(stateless_even) { half<true>(); }

// the same type with and without state, repeatedly
HARNESS(repeated) {
    for_sizes<1, 6>([]<size_t... I>(std::index_sequence<I...>) {
        auto t = compressed_tuple{ (void(I), Empty{})... };
        CHECK("the same stateless type, repeatedly", sizeof(t) == 1 && ((pigro::get<I>(t) == Empty{}) && ...));
        Values<sizeof...(I)> v;
        auto s = compressed_tuple{ [x = v[I]](int y) { return vf_uf(int(I), x, y); }... };
        const int y = ANY;
        CHECK("functions with state", ((pigro::get<I>(s)(y) == vf_uf(int(I), v[I], y)) && ...));
    });
    COVER("end");
}
