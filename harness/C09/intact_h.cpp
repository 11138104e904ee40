#include "common/intact.inc"
HARNESS(i_string) { intact<std::string>(); }
HARNESS(i_vector) { intact<std::vector<int>>(); }
