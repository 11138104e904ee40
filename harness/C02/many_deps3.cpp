#define CHECK_EVALS
#include "common/many_deps3.inc"
