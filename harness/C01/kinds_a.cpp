#define CHECK_VALUES
#include "common/kinds_a.inc"
