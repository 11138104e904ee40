#define CHECK_EVALS
#include "common/tree.inc"
