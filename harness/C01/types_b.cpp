#define CHECK_VALUES
#include "common/types_b.inc"
