// BOUNDS: dependencies and results of 4 more types (enumerations of 32 and 64 bits, wchar_t, long double), as value, function and lazy function; 3 calls with arbitrary values in between
#include "common/types.h"

HARNESS(t_wide) { flow<Wide>(); }
HARNESS(t_plain) { flow<Plain>(); }
HARNESS(t_wchar) { flow<wchar_t>(); }
HARNESS(t_extended) { flow<long double, Special<long double>>(); }
HARNESS(t_precise) { flow<double, Special<double>>(); }
