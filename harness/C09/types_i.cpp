#define CHECK_VALUES
#include "common/types_i.inc"
