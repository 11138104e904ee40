#include "common/state_many.inc"
HARNESS(char8) { state_many<signed char>(std::make_index_sequence<8>{}); }
HARNESS(sum8) { state_many<Sum>(std::make_index_sequence<8>{}); }
HARNESS(vector8) { state_many<std::vector<int>>(std::make_index_sequence<8>{}); }
HARNESS(char9) { state_many<signed char>(std::make_index_sequence<9>{}); }
HARNESS(sum9) { state_many<Sum>(std::make_index_sequence<9>{}); }
HARNESS(vector9) { state_many<std::vector<int>>(std::make_index_sequence<9>{}); }
