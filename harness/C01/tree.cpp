#define CHECK_VALUES
#include "common/tree.inc"
