// BOUNDS: dependencies and results of 13 more types (128 bits, char16_t, pointers to functions and members, derived classes, bit fields, coarse equality, pairs of structs, arrays, string_view, variant), as value, function and lazy function; 3 calls with arbitrary values in between
#include "common/types.h"

HARNESS(t_keyed) { flow<Keyed>(); }
HARNESS(t_function) { flow<Function>(); }
HARNESS(t_member) { flow<Member>(); }
HARNESS(t_points) { flow<std::pair<Point, Point>>(); }
