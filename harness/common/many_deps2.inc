#include "common/many_deps.inc"
HARNESS(fn9) { many(std::make_index_sequence<9>{}); }
