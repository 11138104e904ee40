#define CHECK_EVALS
#include "common/types_h.inc"
