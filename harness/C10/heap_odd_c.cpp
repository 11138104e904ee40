#include "common/heap_typed.inc"
HARNESS(h_view) { typed<View>(); }
