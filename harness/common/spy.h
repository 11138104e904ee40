#pragma once
#include "common/typed.h"

static int compared[16];
static void reset() { for (int &c : compared) c = 0; }
static int all_compared() {
    int r = 0;
    for (int c : compared) r += c;
    return r;
}
// Counts its comparisons, for each origin
template<int origin, typename T = int>
struct Spy {
    T v;
    static Spy of(unsigned char key) { return Spy{ make<T>(key) }; }
    bool operator==(const Spy &other) const { ++compared[origin]; return v == other.v; }
};
// the same, with a comparison for inequality of its own
template<int origin, typename T = int>
struct Spy2 {
    T v;
    static Spy2 of(unsigned char key) { return Spy2{ make<T>(key) }; }
    bool operator==(const Spy2 &other) const { ++compared[origin]; return v == other.v; }
    bool operator!=(const Spy2 &other) const { ++compared[origin]; return !(v == other.v); }
};
