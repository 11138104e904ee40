#include "common/compare_typed.inc"
HARNESS(c_string) { typed<Spy, std::string>(); }
HARNESS(c_vector) { typed<Spy2, std::vector<int>>(); }
