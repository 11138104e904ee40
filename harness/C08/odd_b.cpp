#include "common/throw_typed.inc"
HARNESS(f_function) { fails<Function>(); }
HARNESS(f_member) { fails<Member>(); }
HARNESS(f_reference) { fails<Reference>(); }
HARNESS(f_single) { fails<Single>(); }
