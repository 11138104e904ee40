#include "common/graph_typed.inc"

HARNESS(p_string) { passed_on<std::string>(); }
HARNESS(p_vector) { passed_on<std::vector<int>>(); }
