#include "common/compare_many.inc"
HARNESS(many7) { many(std::make_index_sequence<7>{}); }
