#include "common/many_deps.inc"
HARNESS(fn10) { many(std::make_index_sequence<10>{}); }
