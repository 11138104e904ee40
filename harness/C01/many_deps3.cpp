#define CHECK_VALUES
#include "common/many_deps3.inc"
