#include "common/compare_typed.inc"
HARNESS(c_sub) { typed<Spy, Sub>(); }
HARNESS(c_nine) { typed<Spy2, Nine>(); }
HARNESS(c_optional) { typed<Spy, std::optional<int>>(); }
