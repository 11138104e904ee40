#define CHECK_EVALS
#include "common/types_e.inc"
