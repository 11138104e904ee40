#include "common/state_many.inc"
HARNESS(char6) { state_many<signed char>(std::make_index_sequence<6>{}); }
HARNESS(sum6) { state_many<Sum>(std::make_index_sequence<6>{}); }
HARNESS(vector6) { state_many<std::vector<int>>(std::make_index_sequence<6>{}); }
HARNESS(char7) { state_many<signed char>(std::make_index_sequence<7>{}); }
HARNESS(sum7) { state_many<Sum>(std::make_index_sequence<7>{}); }
HARNESS(vector7) { state_many<std::vector<int>>(std::make_index_sequence<7>{}); }
