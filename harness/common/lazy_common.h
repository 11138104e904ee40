// Shared by the harnesses of pigro::lazy
#pragma once
#include "vf.h"

#include "pigro/lazy.h"

#include <optional>
#include <string>
#include <tuple>
#include <vector>

using pigro::lazy;

#ifdef VF_DEEP
#define BOUND(quick, thorough) (thorough)
#else
#define BOUND(quick, thorough) (quick)
#endif

// C01 checks the values, C02 the number of evaluations
#ifdef CHECK_VALUES
#define VALUE(id, ...) CHECK(id, __VA_ARGS__)
#else
#define VALUE(id, ...) (void)(__VA_ARGS__)
#endif
#ifdef CHECK_EVALS
#define EVALS(id, ...) CHECK(id, __VA_ARGS__)
#else
#define EVALS(id, ...) (void)(__VA_ARGS__)
#endif

// What a lazy function is expected to do, given the values of its dependencies
// at the time of each call: evaluate if it has not been evaluated before, or if
// any of those is different from the ones used for the last evaluation.
template<typename... Ts>
struct Model {
    std::optional<std::tuple<Ts...>> last;
    int evaluations = 0;
    int calls = 0;
    bool call(const Ts &...now) {
        ++calls;
        auto args = std::tuple<Ts...>{ now... };
        if (last && *last == args) return false;
        last = args;
        ++evaluations;
        return true;
    }
};

#ifndef VF_POINT
#define VF_POINT
struct Point {
    int x, y;
    bool operator==(const Point &) const = default;
};
#endif
struct Padded {
    char c;
    int i;
    short s;
    bool operator==(const Padded &) const = default;
};
enum class Color : unsigned char { red,
    green,
    blue };
