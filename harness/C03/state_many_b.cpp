#include "common/state_many.inc"
HARNESS(char4) { state_many<signed char>(std::make_index_sequence<4>{}); }
HARNESS(sum4) { state_many<Sum>(std::make_index_sequence<4>{}); }
HARNESS(vector4) { state_many<std::vector<int>>(std::make_index_sequence<4>{}); }
HARNESS(char5) { state_many<signed char>(std::make_index_sequence<5>{}); }
HARNESS(sum5) { state_many<Sum>(std::make_index_sequence<5>{}); }
HARNESS(vector5) { state_many<std::vector<int>>(std::make_index_sequence<5>{}); }
