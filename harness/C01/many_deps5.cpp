#define CHECK_VALUES
#include "common/many_deps5.inc"
