#include "common/heap_typed.inc"
HARNESS(h_function) { typed<Function>(); }
HARNESS(h_member) { typed<Member>(); }
HARNESS(h_reference) { typed<Reference>(); }
HARNESS(h_single) { typed<Single>(); }
