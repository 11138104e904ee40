#define CHECK_VALUES
#include "common/mixed_deps.inc"
