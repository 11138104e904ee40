#include "common/many_deps.inc"
HARNESS(fn7) { many(std::make_index_sequence<7>{}); }
HARNESS(mixed8) { mixed(std::make_index_sequence<8>{}); }
