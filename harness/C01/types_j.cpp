#define CHECK_VALUES
#include "common/types_j.inc"
