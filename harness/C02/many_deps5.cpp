#define CHECK_EVALS
#include "common/many_deps5.inc"
