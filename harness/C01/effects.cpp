#define CHECK_VALUES
#include "common/effects.inc"
