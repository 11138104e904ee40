#define CHECK_VALUES
#include "common/types_a.inc"
