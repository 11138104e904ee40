#include "common/intact.inc"
HARNESS(i_anchored) { intact<Anchored>(); }
HARNESS(i_exact) { intact<Exact>(); }
