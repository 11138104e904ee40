#include "common/void_typed.inc"
HARNESS(t_nine) { typed<Nine>(); }
HARNESS(t_optional) { typed<std::optional<int>>(); }
HARNESS(t_string) { typed<std::string>(); }
HARNESS(t_vector) { typed<std::vector<int>>(); }
