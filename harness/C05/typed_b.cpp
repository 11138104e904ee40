#include "common/compare_typed.inc"
HARNESS(c_large) { typed<Spy2, Large>(); }
HARNESS(c_point) { typed<Spy, Point>(); }
