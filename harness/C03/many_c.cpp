#include "common/once_many.inc"
HARNESS(many8) { many(std::make_index_sequence<8>{}); }
