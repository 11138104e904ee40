#include "common/throw_typed.inc"
HARNESS(f_vector) { fails<std::vector<int>>(); }
