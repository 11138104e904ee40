#include "common/heap_typed.inc"
HARNESS(h_char) { typed<char>(); }
HARNESS(h_point) { typed<Point>(); }
HARNESS(h_large) { typed<Large>(); }
