#define CHECK_VALUES
#include "common/kinds_b.inc"
