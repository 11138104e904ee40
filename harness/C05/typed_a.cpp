#include "common/compare_typed.inc"
HARNESS(c_char) { typed<Spy, char>(); }
HARNESS(c_long) { typed<Spy2, long>(); }
