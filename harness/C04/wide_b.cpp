#include "common/wide.inc"
HARNESS(wide6) { wide(std::make_index_sequence<6>{}); }
HARNESS(wide7) { wide(std::make_index_sequence<7>{}); }
