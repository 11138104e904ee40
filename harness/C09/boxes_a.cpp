#define CONTAINERS
#include "common/intact.inc"
HARNESS(i_chars) { intact<Chars>(); }
HARNESS(i_shorts) { intact<Shorts>(); }
