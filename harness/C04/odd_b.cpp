#define CHECK_VALUES
#define CHECK_EVALS
#include "common/odd.inc"
HARNESS(p_function) { passed_on<Function>(); }
HARNESS(p_member) { passed_on<Member>(); }
HARNESS(p_reference) { passed_on<Reference>(); }
HARNESS(p_single) { passed_on<Single>(); }
