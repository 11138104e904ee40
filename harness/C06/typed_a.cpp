#include "common/void_typed.inc"
HARNESS(t_char) { typed<char>(); }
HARNESS(t_long) { typed<long>(); }
HARNESS(t_point) { typed<Point>(); }
HARNESS(t_large) { typed<Large>(); }
