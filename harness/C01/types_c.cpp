#define CHECK_VALUES
#include "common/types_c.inc"
