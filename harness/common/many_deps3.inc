#include "common/many_deps.inc"
HARNESS(fn4) { many(std::make_index_sequence<4>{}); }
HARNESS(fn5) { many(std::make_index_sequence<5>{}); }
HARNESS(fn6) { many(std::make_index_sequence<6>{}); }
HARNESS(mixed6) { mixed(std::make_index_sequence<6>{}); }
