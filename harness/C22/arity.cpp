// BOUNDS: functions of 0 to 6, 8, 9, 12 and 17 arguments, with and without result, with state (16 and 92 bytes) and without, copied and moved; all values
#include "common/arity.h"

#include <functional>
#include <optional>
#include <tuple>

#include "pigro/regular_void.h"

using pigro::regular_void;
using pigro::regularized_void;
using pigro::unregularized_void;

HARNESS(sizes) {
    for_sizes_and<0, 6, 8, 9, 12, 17>([]<size_t... I>(std::index_sequence<I...>) {
        Values<sizeof...(I)> v;
        int n = 0, s = 0;
        auto f = regularized_void([&](auto... x) { ++n; s = vf_uf(1, s, x...); });
        static_assert(std::is_same_v<decltype(f(v[I]...)), regular_void>);
        f(v[I]...);
        CHECK("without result: called once, with its arguments", n == 1 && s == vf_uf(1, 0, v[I]...));
        f(v[I]...);
        CHECK("and once again", n == 2 && s == vf_uf(1, vf_uf(1, 0, v[I]...), v[I]...));
        auto g = regularized_void([&](auto... x) { ++n; return vf_uf(2, x...); });
        CHECK("with result: called once, with its arguments", g(v[I]...) == vf_uf(2, v[I]...) && n == 3);
        auto h = unregularized_void([&](auto... x) { ++n; s = vf_uf(1, x...); return regular_void{}; });
        static_assert(std::is_void_v<decltype(h(v[I]...))>);
        h(v[I]...);
        CHECK("without result, the other way around", s == vf_uf(1, v[I]...) && n == 4);
        auto k = unregularized_void([&](auto... x) { ++n; return vf_uf(2, x...); });
        CHECK("with result, the other way around", k(v[I]...) == vf_uf(2, v[I]...) && n == 5);
        auto w = unregularized_void(regularized_void([&](auto... x) { ++n; s = vf_uf(3, x...); }));
        w(v[I]...);
        CHECK("there and back", s == vf_uf(3, v[I]...) && n == 6);
    });
    COVER("end");
}

// keeps state, of its own
template<bool result, size_t room>
struct Counting {
    int n;
    int *seen;
    int more[room] = {};
    auto operator()(auto... x) {
        n = vf_uf(1, n, x...);
        *seen = n;
        if constexpr (result) return n;
    }
};
template<bool result, size_t room>
static void stateful() {
    for_sizes_and<0, 6, 8, 9, 12, 17>([]<size_t... I>(std::index_sequence<I...>) {
        Values<sizeof...(I)> v;
        const int start = vf_nondet_i32();
        int seen = 0;
        auto check = [&](auto f) {
            auto calls = [&](auto &g, int n) {
                if constexpr (std::is_same_v<decltype(g(v[I]...)), int>) CHECK("the result", g(v[I]...) == n);
                else g(v[I]...);
                return seen == n;
            };
            const int one = vf_uf(1, start, v[I]...), two = vf_uf(1, one, v[I]...), three = vf_uf(1, two, v[I]...);
            CHECK("first", calls(f, one));
            auto c = f;
            CHECK("state is kept", calls(f, two));
            CHECK("state is kept in the copy", calls(c, two));
            auto m = std::move(c);
            CHECK("state is moved along", calls(m, three));
            CHECK("and not shared", calls(f, three));
        };
        const Counting<result, room> f{ start, &seen };
        check(regularized_void(f));
        check(unregularized_void(f));
        check(unregularized_void(regularized_void(f)));
    });
    COVER("end");
}
HARNESS(stateful_result) { stateful<true, 1>(); }
HARNESS(stateful_void) { stateful<false, 1>(); }
HARNESS(stateful_large) { stateful<false, 20>(); }
