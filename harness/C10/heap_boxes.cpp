#define CONTAINERS
#include "common/heap_typed.inc"
HARNESS(h_shorts) { typed<Shorts>(); }
HARNESS(h_huge) { typed<Huge>(); }
