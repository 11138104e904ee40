#include "common/once_typed.inc"
HARNESS(o_point) { once<Point>(); }
HARNESS(o_large) { once<Large>(); }
