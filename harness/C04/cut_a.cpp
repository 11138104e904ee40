#include "common/cut.inc"
HARNESS(c_char) { cut<char>(); }
HARNESS(c_long) { cut<long>(); }
HARNESS(c_point) { cut<Point>(); }
