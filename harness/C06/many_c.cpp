#include "common/void_many.inc"
HARNESS(many7) { many(std::make_index_sequence<7>{}); }
HARNESS(many8) { many(std::make_index_sequence<8>{}); }
