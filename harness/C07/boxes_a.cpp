#define CONTAINERS
#include "common/copy_typed.inc"
HARNESS(c_chars) { copied<Chars>(); }
HARNESS(c_shorts) { copied<Shorts>(); }
HARNESS(c_huge) { copied<Huge>(); }
