#include "common/copy_typed.inc"
HARNESS(c_function) { copied<Function>(); }
HARNESS(c_member) { copied<Member>(); }
HARNESS(c_reference) { copied<Reference>(); }
HARNESS(c_single) { copied<Single>(); }
