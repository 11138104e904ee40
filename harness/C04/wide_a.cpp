#include "common/wide.inc"
HARNESS(wide4) { wide(std::make_index_sequence<4>{}); }
HARNESS(wide5) { wide(std::make_index_sequence<5>{}); }
