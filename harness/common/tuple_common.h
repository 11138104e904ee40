// Shared by the harnesses of the tuples and the bound functions
#pragma once
#include "vf.h"

#include "pigro/compressed_tuple.h"

#include <array>
#include <memory>
#include <string>
#include <tuple>

using pigro::compressed_tuple;

struct Empty {
    bool operator==(const Empty &) const { return true; }
};
struct Empty2 {};
#ifndef VF_POINT
#define VF_POINT
struct Point {
    int x, y;
    bool operator==(const Point &) const = default;
};
#endif

// counts its copies, moves and instances, and notices when it is used afterwards
struct Tracked {
    static inline int copies, moves, alive;
    int v;
    bool valid = true;
    explicit Tracked(int v = 0) : v{ v } { ++alive; }
    Tracked(const Tracked &o) : v{ o.v }, valid{ o.valid } { ++copies, ++alive; }
    Tracked(Tracked &&o) : v{ o.v }, valid{ o.valid } { o.valid = false, ++moves, ++alive; }
    Tracked &operator=(const Tracked &o) { v = o.v, valid = o.valid, ++copies; return *this; }
    Tracked &operator=(Tracked &&o) { v = o.v, valid = o.valid, o.valid = false, ++moves; return *this; }
    ~Tracked() { --alive; }
    static void reset() { copies = moves = alive = 0; }
};
