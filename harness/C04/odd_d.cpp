#define CHECK_VALUES
#define CHECK_EVALS
#include "common/odd.inc"
HARNESS(p_large) { passed_on<Large>(); }
HARNESS(p_aligned) { passed_on<Aligned>(); }
HARNESS(p_exact) { passed_on<Exact>(); }
HARNESS(p_anchored) { passed_on<Anchored>(); }
HARNESS(p_byte) { passed_on<Byte>(); }
