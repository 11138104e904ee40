#define CHECK_EVALS
#include "common/long.inc"
