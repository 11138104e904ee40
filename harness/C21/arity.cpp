// BOUNDS: 0 to 6, 8, 9, 12 and 17 arguments, named, constant and temporary ones; all values; recursive functions that are named, constant and temporary
#include "common/tuple_common.h"
#include "common/arity.h"

#include <functional>

#include "pigro/recursive.h"

using pigro::recursive;

HARNESS(sizes) {
    for_sizes_and<0, 6, 8, 9, 12, 17>([]<size_t... I>(std::index_sequence<I...>) {
        constexpr size_t n = sizeof...(I);
        Values<n> v;
        auto f = recursive{ [](auto &&self, auto &&...x) { return vf_uf(1, x...); } };
        const auto c = f;
        CHECK("all of the arguments", f(v[I]...) == vf_uf(1, v[I]...));
        CHECK("all of the arguments, constant", c(v[I]...) == vf_uf(1, v[I]...));
        CHECK("all of the arguments, temporary", std::move(f)(v[I]...) == vf_uf(1, v[I]...) && std::move(c)(v[I]...) == vf_uf(1, v[I]...));
        const int *seen[n + 1] = {};
        const void *me = nullptr;
        auto g = recursive{ [&](auto &&self, auto &&...x) { me = &self; size_t i = 0; ((seen[i++] = &x), ...); } };
        const auto &k = g;
        g(v[I]...);
        CHECK("itself and the arguments", me == &g && ((seen[I] == &v[I]) && ...));
        k(std::as_const(v[I])...);
        CHECK("itself and constant arguments", me == &g && ((seen[I] == &v[I]) && ...));
        std::move(g)(std::move(v[I])...);
        CHECK("itself and temporary arguments", me == &g && ((seen[I] == &v[I]) && ...));
        std::move(k)(v[I]...);
        CHECK("itself, constant temporary", me == &g && ((seen[I] == &v[I]) && ...));
        auto kinds = recursive{ [](auto &&self, auto &&...x) {
            unsigned r = std::is_lvalue_reference_v<decltype(self)> * 2 + std::is_const_v<std::remove_reference_t<decltype(self)>>;
            ((r = r * 4 + std::is_lvalue_reference_v<decltype(x)> * 2 + std::is_const_v<std::remove_reference_t<decltype(x)>>), ...);
            return r;
        } };
        auto expected = [](unsigned s, unsigned x) { for (size_t i = 0; i < n; ++i) s = s * 4 + x; return s; };
        const auto kinds_of = [&](unsigned s, auto &&f) {
            CHECK("named arguments", std::forward<decltype(f)>(f)(v[I]...) == expected(s, 2));
            CHECK("constant arguments", std::forward<decltype(f)>(f)(std::as_const(v[I])...) == expected(s, 3));
            CHECK("temporary arguments", std::forward<decltype(f)>(f)(std::move(v[I])...) == expected(s, 0));
            CHECK("constant temporary arguments", std::forward<decltype(f)>(f)(std::move(std::as_const(v[I]))...) == expected(s, 1));
        };
        kinds_of(2, kinds);
        kinds_of(3, std::as_const(kinds));
        kinds_of(0, std::move(kinds));
        kinds_of(1, std::move(std::as_const(kinds)));
    });
    COVER("end");
}
struct Counting {
    int n;
    int operator()(auto &&self, int x) { return n = vf_uf(1, n, x); }
};
HARNESS(assigned) {
    const int v = vf_nondet_i32(), w = vf_nondet_i32(), x = vf_nondet_i32(), y = vf_nondet_i32();
    recursive<Counting> a{ Counting{ v } }, b{ Counting{ w } };
    a(x);
    auto c = a;
    b = a;
    CHECK("assigned", b(y) == vf_uf(1, vf_uf(1, v, x), y));
    CHECK("the original", a(y) == vf_uf(1, vf_uf(1, v, x), y) && c(y) == vf_uf(1, vf_uf(1, v, x), y));
    recursive<Counting> d{ Counting{ w } };
    std::swap(d, a);
    CHECK("exchanged", a(y) == vf_uf(1, w, y) && d(y) == vf_uf(1, vf_uf(1, vf_uf(1, v, x), y), y));
    c = std::move(d);
    c = std::as_const(c);
    CHECK("moved", c(x) == vf_uf(1, vf_uf(1, vf_uf(1, vf_uf(1, v, x), y), y), x));
    COVER("end");
}
