#define CHECK_EVALS
#include "common/contexts.inc"
