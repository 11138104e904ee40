#define CHECK_VALUES
#include "common/many_deps4.inc"
