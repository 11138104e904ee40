// BOUNDS: the identities of 0 to 6, 9 and 12 bound objects, owned, named, referred to, constant or not, with 0 to 4 arguments of the call; 2 calls
#include "common/bind_common.h"
#include "common/arity.h"

// the very objects that are bound: those of the function itself, of a named
// tuple, or those that a tuple refers to; the same ones with each call
struct Item {
    int v;
};
template<bool front, typename T, typename Where>
static void bound_identities(T &&tuple, Where where) {
    static constexpr size_t n = std::tuple_size_v<std::remove_cvref_t<T>>;
    int x[4] = {};
    const Item *seen[n + 1] = {}, *again[n + 1] = {};
    const Item **to = seen;
    auto note = [&](auto &&...a) {
        size_t i = 0;
        auto one = [&](auto &v) { if constexpr (std::is_same_v<std::remove_cvref_t<decltype(v)>, Item>) to[i++] = &v; };
        (one(a), ...);
        return int(i);
    };
    auto f = [&] {
        if constexpr (front) return std::forward<T>(tuple) >> note;
        else return std::forward<T>(tuple) << note;
    }();
    for_sizes<0, 4>([&]<size_t... J>(std::index_sequence<J...>) {
        to = seen;
        CHECK("all of them are passed", f(x[J]...) == n);
        to = again;
        CHECK("all of them are passed again", f(x[J]...) == n);
        for (size_t i = 0; i < n; ++i) {
            CHECK("the same objects with each call", seen[i] == again[i]);
            CHECK("the very objects", where(seen[i], i, (const char *)&f, (const char *)(&f + 1)));
            for (size_t j = 0; j < i; ++j) CHECK("each of them is another one", seen[i] != seen[j]);
        }
    });
}
template<bool front, template<typename...> class Tuple>
static void bound() {
    for_sizes_and<0, 6, 9, 12>([]<size_t... I>(std::index_sequence<I...>) {
        Item b[sizeof...(I) + 1] = {};
        auto inside = [](const Item *p, size_t, const char *from, const char *to) { return (const char *)p >= from && (const char *)p < to; };
        auto outside = [&](const Item *p, size_t i, auto...) { return p == &b[i]; };
        bound_identities<front>(Tuple<decltype((void)I, Item{})...>{ b[I]... }, inside);
        bound_identities<front>(Tuple<decltype((void)I, (Item &)b[0])...>{ b[I]... }, outside);
        bound_identities<front>(Tuple<decltype((void)I, (const Item &)b[0])...>{ b[I]... }, outside);
        auto t = Tuple<decltype((void)I, Item{})...>{ b[I]... };
        auto named = [&](const Item *p, size_t, auto...) { return (const char *)p >= (const char *)&t && (const char *)p < (const char *)(&t + 1); };
        bound_identities<front>(t, named);
        bound_identities<front>(std::as_const(t), named);
    });
    COVER("end");
}
