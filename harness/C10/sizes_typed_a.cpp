#include "common/sizes_typed.inc"
HARNESS(s_bool) { sizes<bool>(); }
HARNESS(s_short) { sizes<short>(); }
HARNESS(s_long) { sizes<long>(); }
HARNESS(s_float) { sizes<float>(); }
