#include "common/once_typed.inc"
HARNESS(o_aligned) { once<Aligned>(); }
HARNESS(o_anchored) { once<Anchored>(); }
