#define CHECK_EVALS
#include "common/effects.inc"
