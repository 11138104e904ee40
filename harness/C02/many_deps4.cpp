#define CHECK_EVALS
#include "common/many_deps4.inc"
