#include "common/sizes_typed.inc"
HARNESS(s_function) { sizes<Function>(); }
HARNESS(s_member) { sizes<Member>(); }
HARNESS(s_reference) { sizes<Reference>(); }
HARNESS(s_single) { sizes<Single>(); }
