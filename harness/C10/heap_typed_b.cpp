#include "common/heap_typed.inc"
HARNESS(h_aligned) { typed<Aligned>(); }
HARNESS(h_exact) { typed<Exact>(); }
HARNESS(h_nine) { typed<Nine>(); }
