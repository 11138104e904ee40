#define CHECK_EVALS
#include "common/types_a.inc"
