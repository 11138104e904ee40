// the same harness for each of several types
#pragma once
#include "common/values.h"

template<typename T>
struct Each { using type = T; };
template<typename... Ts, typename F>
static void each(F f) {
    (f(Each<Ts>{}), ...);
    COVER("end");
}
#define SCALARS bool, char, short, unsigned, long, const char *, int *
#define CLASSES Point, Large, Aligned, Anchored, Exact
#define FURTHER Byte, Flags, Shade, Sub, Square, Nine, float, double
#define ODD_A Json, Final, Either, Strict, Function, Member, Single
#define ODD_B Reference, Twin
#define HOLDERS Words, Maybe
#define OWNERS std::string, std::vector<int>, std::pair<std::string, int>, std::shared_ptr<int>, std::optional<int>
// a value of type T that is made of the key
template<typename T>
static T sample(unsigned char key) {
    static int some[256];
    if constexpr (std::is_same_v<T, int *>) return some + key;
    else return make<T>(key);
}
