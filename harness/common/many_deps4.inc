#include "common/many_deps.inc"
HARNESS(fn8) { many(std::make_index_sequence<8>{}); }
HARNESS(mixed10) { mixed(std::make_index_sequence<10>{}); }
