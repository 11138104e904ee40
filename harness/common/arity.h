// for each number of elements: f(std::integral_constant<size_t, n>, std::index_sequence<0 ... n-1>)
#pragma once
#include "vf.h"
#include <utility>
template<size_t from, size_t to, typename F>
void for_sizes(F f) {
    if constexpr (from <= to) {
        f(std::make_index_sequence<from>{});
        for_sizes<from + 1, to>(f);
    }
}
// the same, and some larger ones
template<size_t from, size_t to, size_t... more, typename F>
void for_sizes_and(F f) {
    for_sizes<from, to>(f);
    (f(std::make_index_sequence<more>{}), ...);
}
template<size_t n>
struct Values { // n arbitrary values
    int v[n + 1];
    Values() {
        for (auto &x : v) x = vf_nondet_i32();
    }
    int &operator[](size_t i) { return v[i]; }
};
// an element without state for each index
template<size_t I>
struct Tag {
    int id() const { return int(I) + 40; }
};
