#include "common/wide.inc"
HARNESS(wide9) { wide(std::make_index_sequence<9>{}); }
