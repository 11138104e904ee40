#include "common/compare_typed.inc"
HARNESS(c_anchored) { typed<Spy2, Anchored>(); }
