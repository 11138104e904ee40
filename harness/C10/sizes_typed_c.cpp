#include "common/sizes_typed.inc"
HARNESS(s_aligned) { sizes<Aligned>(); }
HARNESS(s_exact) { sizes<Exact>(); }
HARNESS(s_anchored) { sizes<Anchored>(); }
HARNESS(s_sub) { sizes<Sub>(); }
