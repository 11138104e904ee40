#include "common/once_typed.inc"
HARNESS(o_function) { once<Function>(); }
HARNESS(o_member) { once<Member>(); }
HARNESS(o_reference) { once<Reference>(); }
HARNESS(o_single) { once<Single>(); }
