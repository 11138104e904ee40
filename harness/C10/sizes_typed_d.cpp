#include "common/sizes_typed.inc"
HARNESS(s_nine) { sizes<Nine>(); }
HARNESS(s_optional) { sizes<std::optional<int>>(); }
HARNESS(s_string) { sizes<std::string>(); }
HARNESS(s_vector) { sizes<std::vector<int>>(); }
