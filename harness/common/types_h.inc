// BOUNDS: dependencies and results of 13 more types (128 bits, char16_t, pointers to functions and members, derived classes, bit fields, coarse equality, pairs of structs, arrays, string_view, variant), as value, function and lazy function; 3 calls with arbitrary values in between
#include "common/types.h"

HARNESS(t_i128) { flow<__int128>(); }
HARNESS(t_u128) { flow<unsigned __int128>(); }
HARNESS(t_char16) { flow<char16_t>(); }
HARNESS(t_derived) { flow<Derived>(); }
HARNESS(t_bits) { flow<Bits>(); }
