#define CHECK_EVALS
#include "common/many_deps1.inc"
