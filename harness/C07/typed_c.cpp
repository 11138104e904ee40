#include "common/copy_typed.inc"
HARNESS(c_anchored) { copied<Anchored>(); }
HARNESS(c_exact) { copied<Exact>(); }
