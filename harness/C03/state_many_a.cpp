#include "common/state_many.inc"
HARNESS(char1) { state_many<signed char>(std::make_index_sequence<1>{}); }
HARNESS(sum1) { state_many<Sum>(std::make_index_sequence<1>{}); }
HARNESS(vector1) { state_many<std::vector<int>>(std::make_index_sequence<1>{}); }
HARNESS(char2) { state_many<signed char>(std::make_index_sequence<2>{}); }
HARNESS(sum2) { state_many<Sum>(std::make_index_sequence<2>{}); }
HARNESS(vector2) { state_many<std::vector<int>>(std::make_index_sequence<2>{}); }
HARNESS(char3) { state_many<signed char>(std::make_index_sequence<3>{}); }
HARNESS(sum3) { state_many<Sum>(std::make_index_sequence<3>{}); }
HARNESS(vector3) { state_many<std::vector<int>>(std::make_index_sequence<3>{}); }
