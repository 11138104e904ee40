#include "common/throw_typed.inc"
HARNESS(f_char) { fails<char>(); }
HARNESS(f_long) { fails<long>(); }
