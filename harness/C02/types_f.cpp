#define CHECK_EVALS
#include "common/types_f.inc"
