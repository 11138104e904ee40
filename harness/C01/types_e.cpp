#define CHECK_VALUES
#include "common/types_e.inc"
