#include "common/copy_typed.inc"
HARNESS(c_large) { copied<Large>(); }
HARNESS(c_aligned) { copied<Aligned>(); }
