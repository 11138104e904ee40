#include "common/graph_typed.inc"

HARNESS(p_pair) { passed_on<std::pair<int, char>>(); }
HARNESS(p_tuple) { passed_on<std::tuple<int, bool>>(); }
HARNESS(p_optional) { passed_on<std::optional<int>>(); }
HARNESS(p_array) { passed_on<std::array<int, 3>>(); }
