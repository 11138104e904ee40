#define CHECK_EVALS
#include "common/types_j.inc"
