// BOUNDS: 1 to 6 stateless functions, 1 to 6 plain values and 3 lazy functions as dependencies, of char, int, double and a struct; stateless functions without result on top of each other
#include "common/lazy_common.h"

template<typename T>
struct Read {
    T operator()() const { return T{}; }
};
template<typename T>
struct First {
    template<typename... Ts>
    T operator()(const T &x, const Ts &...) const { return x; }
};
template<typename T, size_t... I>
static void functions(std::index_sequence<I...>) {
    auto f = lazy(First<T>{}, ((void)I, Read<T>{})...);
    CHECK("a cache for each function and the result, nothing else", sizeof(f) == (sizeof...(I) + 1) * sizeof(std::optional<T>));
    CHECK("the value", f() == T{});
}
template<typename T, size_t... I>
static void values(std::index_sequence<I...>) {
    auto f = lazy(First<T>{}, ((void)I, T{})...);
    constexpr size_t a = alignof(T), n = sizeof(std::optional<T>) + sizeof...(I) * sizeof(T);
    CHECK("a cache for the result and the values, nothing else", sizeof(f) == (n + a - 1) / a * a);
    CHECK("the value", f() == T{});
}
template<typename T>
static void sizes() {
    functions<T>(std::make_index_sequence<1>{});
    functions<T>(std::make_index_sequence<3>{});
    values<T>(std::make_index_sequence<1>{});
    values<T>(std::make_index_sequence<4>{});
}
HARNESS(s_char) { sizes<char>(); }
HARNESS(s_double) { sizes<double>(); }
HARNESS(s_point) { sizes<Point>(); }
