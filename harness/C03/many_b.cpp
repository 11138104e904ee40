#include "common/once_many.inc"
HARNESS(many6) { many(std::make_index_sequence<6>{}); }
HARNESS(many7) { many(std::make_index_sequence<7>{}); }
