#include "common/copy_typed.inc"
HARNESS(c_vector) { copied<std::vector<int>>(); }
