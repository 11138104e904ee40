#include "common/once_many.inc"
HARNESS(many4) { many(std::make_index_sequence<4>{}); }
HARNESS(many5) { many(std::make_index_sequence<5>{}); }
