#define CHECK_VALUES
#include "common/contexts.inc"
