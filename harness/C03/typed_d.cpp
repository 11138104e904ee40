#include "common/once_typed.inc"
HARNESS(o_string) { once<std::string>(); }
HARNESS(o_optional) { once<std::optional<int>>(); }
