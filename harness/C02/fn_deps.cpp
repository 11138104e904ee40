#define CHECK_EVALS
#include "common/fn_deps.inc"
