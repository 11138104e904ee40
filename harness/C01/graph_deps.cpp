#define CHECK_VALUES
#include "common/graph_deps.inc"
