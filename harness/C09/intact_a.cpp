#include "common/intact.inc"
HARNESS(i_large) { intact<Large>(); }
HARNESS(i_aligned) { intact<Aligned>(); }
