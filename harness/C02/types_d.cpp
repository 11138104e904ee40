#define CHECK_EVALS
#include "common/types_d.inc"
