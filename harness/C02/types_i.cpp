#define CHECK_EVALS
#include "common/types_i.inc"
