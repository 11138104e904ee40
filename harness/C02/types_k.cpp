#define CHECK_EVALS
#include "common/types_k.inc"
