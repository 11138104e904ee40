#include "common/once_typed.inc"
HARNESS(o_char) { once<char>(); }
HARNESS(o_long) { once<long>(); }
