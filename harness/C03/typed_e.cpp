#include "common/once_typed.inc"
HARNESS(o_vector) { once<std::vector<int>>(); }
HARNESS(o_exact) { once<Exact>(); }
