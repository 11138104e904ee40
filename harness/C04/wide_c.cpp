#include "common/wide.inc"
HARNESS(wide8) { wide(std::make_index_sequence<8>{}); }
