#include "common/throw_typed.inc"
HARNESS(f_anchored) { fails<Anchored>(); }
HARNESS(f_exact) { fails<Exact>(); }
