#define CHECK_VALUES
#include "common/odd.inc"
HARNESS(t_function) { flow<Function>(); }
HARNESS(t_member) { flow<Member>(); }
HARNESS(t_reference) { flow<Reference>(); }
HARNESS(t_single) { flow<Single>(); }
