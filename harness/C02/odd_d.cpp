#define CHECK_EVALS
#include "common/odd.inc"
HARNESS(t_large) { flow<Large>(); }
HARNESS(t_aligned) { flow<Aligned>(); }
HARNESS(t_exact) { flow<Exact>(); }
HARNESS(t_anchored) { flow<Anchored>(); }
HARNESS(t_byte) { flow<Byte>(); }
