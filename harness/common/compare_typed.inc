// BOUNDS: values of 26 types (1 to 136 bytes, optional, array, string, vector) that count their comparisons, as value, function, lazy function and result; 3 calls
#include "common/spy.h"

template<template<int, typename> class S, typename T>
static void typed() {
    reset();
    unsigned char a = any_key<T>(), b = any_key<T>();
    auto g = lazy([](const S<0, T> &x) { return S<1, T>{ x.v }; }, [&] { return S<0, T>::of(a); });
    auto f = lazy([](const S<1, T> &x, const S<2, T> &y, S<3, T> z) { return S<4, T>{ x.v }; }, g, [&] { return S<2, T>::of(b); }, S<3, T>::of(any_key<T>()));
    CHECK("nothing is compared at construction", all_compared() == 0);
    f();
    CHECK("nothing to compare with, at first", all_compared() == 0);
    for (int i = 1; i < HIST(3); ++i) {
        reset();
        const unsigned char a0 = a, b0 = b;
        a = any_key<T>(), b = any_key<T>();
        auto r = f();
        CHECK("up to date", r.v == make<T>(a));
        CHECK("the source of the lazy function is compared once", compared[0] == 1);
        CHECK("the lazy function is compared at most if evaluated", compared[1] <= (a != a0));
        CHECK("the function is compared once", compared[2] == 1);
        CHECK("the plain value is never compared", compared[3] == 0);
        CHECK("the result is compared at most if evaluated", compared[4] <= (a != a0 || b != b0));
        if (a != a0 && b == b0) COVER("one of them");
        if (a != a0 && b != b0) COVER("both");
        if (a == a0 && b == b0) COVER("none");
    }
}
