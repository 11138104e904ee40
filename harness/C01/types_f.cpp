#define CHECK_VALUES
#include "common/types_f.inc"
