#define CHECK_EVALS
#include "common/kinds_a.inc"
