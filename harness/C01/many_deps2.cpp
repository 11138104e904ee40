#define CHECK_VALUES
#include "common/many_deps2.inc"
