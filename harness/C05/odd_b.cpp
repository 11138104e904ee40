#include "common/compare_typed.inc"
HARNESS(c_function) { typed<Spy, Function>(); }
HARNESS(c_member) { typed<Spy, Member>(); }
HARNESS(c_reference) { typed<Spy, Reference>(); }
HARNESS(c_single) { typed<Spy, Single>(); }
