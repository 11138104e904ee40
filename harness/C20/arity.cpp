// BOUNDS: overload sets of any number of functions from 1 to 10, 12, 16 and 17, stateless, stateful, and in turn; all values; any one called
#include "common/tuple_common.h"
#include "common/arity.h"

#include "pigro/overload.h"

using pigro::overload;
#define ANY vf_nondet_i32()

template<size_t I, int mode>
static auto function(int v) {
    if constexpr (mode == 0 || (mode == 2 && I % 2)) return [](Tag<I>, int x) { return vf_uf(int(I), 7, x); };
    else return [n = v](Tag<I>, int x) mutable { return n = vf_uf(int(I), n, x); };
}
template<int mode>
static void sizes(unsigned pick) {
    for_sizes_and<1, 10, 12, 16, 17>([=]<size_t... I>(std::index_sequence<I...>) {
        constexpr size_t n = sizeof...(I);
        Values<n> v;
        auto f = overload{ function<I, mode>(v[I])... };
        auto stateful = [](size_t i) { return mode == 1 || (mode == 2 && i % 2 == 0); };
        const unsigned k = (n > 10 ? n - 1 - pick : pick % n);
        const int x = ANY, y = ANY;
        auto c = f;
        ((I == k ? CHECK("the one that matches", f(Tag<I>{}, x) == vf_uf(int(I), stateful(I) ? v[I] : 7, x)) : void()), ...);
        for (size_t i = 0; i < n; ++i)
            if (i == k && stateful(i)) v[i] = vf_uf(int(i), v[i], x);
        auto w = v;
        (CHECK("each with its own state", f(Tag<I>{}, y) == vf_uf(int(I), stateful(I) ? w[I] : 7, y)), ...);
        auto m = std::move(c);
        (CHECK("not affected by the original", I == k || m(Tag<I>{}, y) == vf_uf(int(I), stateful(I) ? w[I] : 7, y)), ...);
        CHECK("only what can be called", !std::is_invocable_v<decltype(f), Tag<n>, int> && std::is_invocable_v<decltype(f), Tag<n - 1>, int>);
    });
    COVER("end");
}
HARNESS(stateless_sizes) { sizes<0>(vf_pick(10)); }
HARNESS(stateful_sizes) { sizes<1>(vf_pick(10)); }
HARNESS(mixed_sizes) { sizes<2>(vf_pick(10)); }
