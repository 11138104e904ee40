#define CHECK_VALUES
#include "common/types_d.inc"
