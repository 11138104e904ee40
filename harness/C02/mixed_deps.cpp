#define CHECK_EVALS
#include "common/mixed_deps.inc"
