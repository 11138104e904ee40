#include "common/throw_many.inc"
HARNESS(many1) { many(std::make_index_sequence<1>{}); }
HARNESS(many2) { many(std::make_index_sequence<2>{}); }
HARNESS(many3) { many(std::make_index_sequence<3>{}); }
HARNESS(many4) { many(std::make_index_sequence<4>{}); }
