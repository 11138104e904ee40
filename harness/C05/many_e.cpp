#include "common/compare_many.inc"
HARNESS(many9) { many(std::make_index_sequence<9>{}); }
