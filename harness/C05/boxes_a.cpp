#define CONTAINERS
#include "common/compare_typed.inc"
HARNESS(c_chars) { typed<Spy, Chars>(); }
HARNESS(c_shorts) { typed<Spy, Shorts>(); }
