#include "common/cut.inc"
HARNESS(c_pair) { cut<std::pair<std::string, int>>(); }
HARNESS(c_large) { cut<Large>(); }
HARNESS(c_optional) { cut<std::optional<int>>(); }
