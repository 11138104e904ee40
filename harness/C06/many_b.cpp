#include "common/void_many.inc"
HARNESS(many5) { many(std::make_index_sequence<5>{}); }
HARNESS(many6) { many(std::make_index_sequence<6>{}); }
