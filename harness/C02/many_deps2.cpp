#define CHECK_EVALS
#include "common/many_deps2.inc"
