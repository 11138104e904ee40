#include "common/throw_typed.inc"
HARNESS(f_string) { fails<std::string>(); }
