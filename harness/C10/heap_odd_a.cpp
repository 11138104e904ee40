#include "common/heap_typed.inc"
HARNESS(h_json) { typed<Json>(); }
HARNESS(h_final) { typed<Final>(); }
HARNESS(h_either) { typed<Either>(); }
HARNESS(h_strict) { typed<Strict>(); }
