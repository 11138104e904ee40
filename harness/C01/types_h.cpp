#define CHECK_VALUES
#include "common/types_h.inc"
