#define CHECK_VALUES
#include "common/types_g.inc"
