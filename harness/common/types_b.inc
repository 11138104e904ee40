// BOUNDS: dependencies and results of 20 types (integers, bool, enum, pointers, double, structs, pair, tuple, optional, array, string, vector), as value, function and lazy function; 3 calls with arbitrary values in between (strings and vectors: up to 2 elements; floating point: anything but NaN)
#include "common/types.h"

HARNESS(t_short) { flow<short>(); }
HARNESS(t_unsigned) { flow<unsigned>(); }
HARNESS(t_long) { flow<long>(); }
