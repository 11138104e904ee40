// BOUNDS: containers of 69 to 73 elements (string, vector, deque, array), one of the elements (the first, 9th, 17th, 34th or 70th) or the length is changed in between 3 calls
#define CHECK_VALUES
#include "common/containers.inc"

HARNESS(c_string) { containers<std::string>(); }
HARNESS(c_vector) { containers<std::vector<int>>(); }
HARNESS(c_deque) { containers<std::deque<short>>(); }
HARNESS(c_array) { containers<std::array<char, 70>>(); }
