#define CONTAINERS
#include "common/throw_typed.inc"
HARNESS(f_chars) { fails<Chars>(); }
HARNESS(f_shorts) { fails<Shorts>(); }
HARNESS(f_huge) { fails<Huge>(); }
