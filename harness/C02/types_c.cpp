#define CHECK_EVALS
#include "common/types_c.inc"
