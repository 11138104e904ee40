#define CONTAINERS
#include "common/once_typed.inc"
HARNESS(o_chars) { once<Chars>(); }
HARNESS(o_shorts) { once<Shorts>(); }
HARNESS(o_huge) { once<Huge>(); }
