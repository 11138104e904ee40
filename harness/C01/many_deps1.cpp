#define CHECK_VALUES
#include "common/many_deps1.inc"
