#include "common/void_typed.inc"
HARNESS(t_function) { typed<Function>(); }
HARNESS(t_member) { typed<Member>(); }
HARNESS(t_reference) { typed<Reference>(); }
HARNESS(t_single) { typed<Single>(); }
