#include "common/throw_typed.inc"
HARNESS(f_large) { fails<Large>(); }
HARNESS(f_aligned) { fails<Aligned>(); }
