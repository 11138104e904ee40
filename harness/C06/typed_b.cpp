#include "common/void_typed.inc"
HARNESS(t_aligned) { typed<Aligned>(); }
HARNESS(t_exact) { typed<Exact>(); }
HARNESS(t_anchored) { typed<Anchored>(); }
HARNESS(t_byte) { typed<Byte>(); }
