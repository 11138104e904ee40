#define CHECK_VALUES
#include "common/long.inc"
