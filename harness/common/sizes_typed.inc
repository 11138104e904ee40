// BOUNDS: 1 to 7 stateless functions and plain values, and chains of 3 lazy functions, of 26 types
#include "common/typed.h"

template<typename T>
struct Read {
    T operator()() const { return make<T>(1); }
};
template<typename T>
struct First {
    template<typename... Ts>
    T operator()(const T &x, const Ts &...) const { return x; }
};
template<typename T>
constexpr size_t rounded(size_t n) { return (n + alignof(T) - 1) / alignof(T) * alignof(T); }
template<typename T, size_t... I>
static void functions(std::index_sequence<I...>) {
    auto f = lazy(First<T>{}, ((void)I, Read<T>{})...);
    CHECK("no more than a cache for each function and the result", sizeof(f) <= (sizeof...(I) + 1) * sizeof(std::optional<T>));
    CHECK("the value", f() == make<T>(1));
}
template<typename T, size_t... I>
static void values(std::index_sequence<I...>) {
    auto f = lazy(First<T>{}, ((void)I, make<T>(2))...);
    CHECK("no more than a cache for the result and the values", sizeof(f) <= rounded<T>(sizeof(std::optional<T>) + sizeof...(I) * sizeof(T)));
    CHECK("the value", f() == make<T>(2));
}
template<typename T>
static void chain() {
    auto a = lazy(First<T>{}, Read<T>{});
    auto b = lazy(First<T>{}, a);
    auto c = lazy(First<T>{}, b, Read<T>{});
    CHECK("no more than a cache for each", sizeof(c) <= 5 * sizeof(std::optional<T>));
    CHECK("the value", c() == make<T>(1));
    auto v = lazy([](const T &) {}, c);
    CHECK("no more than a cache for each, and one without a value", sizeof(v) <= rounded<T>(5 * sizeof(std::optional<T>) + 1));
    v();
}
template<typename T>
static void sizes() {
    functions<T>(std::make_index_sequence<1>{});
    functions<T>(std::make_index_sequence<7>{});
    values<T>(std::make_index_sequence<1>{});
    values<T>(std::make_index_sequence<7>{});
    chain<T>();
}
