#define CHECK_EVALS
#include "common/kinds_b.inc"
