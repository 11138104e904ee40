#define CHECK_VALUES
#define CHECK_EVALS
#include "common/types_b.inc"
