// BOUNDS: copy and move assignment, self-assignment and swap of overload sets of 1 to 8, 12 and 17 functions, each with its own state or in turn without; all values; any one called
#include "common/tuple_common.h"
#include "common/arity.h"

#include <utility>

#include "pigro/overload.h"

using pigro::overload;
#define ANY vf_nondet_i32()

template<size_t I>
struct Counting {
    int n;
    int operator()(Tag<I>, int x) { return n = vf_uf(int(I), n, x); }
};
template<size_t I>
struct Stateless {
    int operator()(Tag<I>, int x) const { return vf_uf(int(I), 7, x); }
};
template<size_t I, int mode>
static auto function(int v) {
    if constexpr (mode == 2 && I % 2) return Stateless<I>{};
    else return Counting<I>{ v };
}
template<int mode, typename Do>
static void sizes(Do act) {
    for_sizes_and<1, 8, 12, 17>([=]<size_t... I>(std::index_sequence<I...>) {
        constexpr size_t n = sizeof...(I);
        Values<n> v, w;
        const int x = ANY;
        auto a = overload{ function<I, mode>(v[I])... };
        auto b = overload{ function<I, mode>(w[I])... };
        const bool swapped = act(a, b);
        auto stateful = [](size_t i) { return mode == 1 || i % 2 == 0; };
        (CHECK("the assigned state", a(Tag<I>{}, x) == vf_uf(int(I), stateful(I) ? w[I] : 7, x)), ...);
        (CHECK("the other's state", b(Tag<I>{}, x) == vf_uf(int(I), stateful(I) ? (swapped ? v[I] : w[I]) : 7, x)), ...);
    });
    COVER("end");
}
static auto copied = [](auto &a, auto &b) { a = b; return false; };
static auto copied_constant = [](auto &a, auto &b) { a = std::as_const(b); return false; };
static auto moved = [](auto &a, auto &b) { auto c = b; a = std::move(c); return false; };
static auto exchanged = [](auto &a, auto &b) { std::swap(a, b); return true; };
static auto onto_itself = [](auto &a, auto &b) { auto &c = b; b = c; a = b; a = std::as_const(a); return false; };
HARNESS(copied_state) { sizes<1>(copied); }
HARNESS(copied_mixed) { sizes<2>(copied_constant); }
HARNESS(moved_state) { sizes<1>(moved); }
HARNESS(moved_mixed) { sizes<2>(moved); }
HARNESS(exchanged_state) { sizes<1>(exchanged); }
HARNESS(exchanged_mixed) { sizes<2>(exchanged); }
HARNESS(self_state) { sizes<1>(onto_itself); }
HARNESS(self_mixed) { sizes<2>(onto_itself); }
