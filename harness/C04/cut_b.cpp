#include "common/cut.inc"
HARNESS(c_string) { cut<std::string>(); }
HARNESS(c_vector) { cut<std::vector<int>>(); }
