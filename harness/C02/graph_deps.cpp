#define CHECK_EVALS
#include "common/graph_deps.inc"
