#define CHECK_VALUES
#include "common/fn_deps.inc"
