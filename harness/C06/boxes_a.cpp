#define CONTAINERS
#include "common/void_typed.inc"
HARNESS(t_chars) { typed<Chars>(); }
HARNESS(t_shorts) { typed<Shorts>(); }
