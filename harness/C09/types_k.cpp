#define CHECK_VALUES
#include "common/types_k.inc"
