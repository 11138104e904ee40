#define CHECK_VALUES
#include "common/odd.inc"
HARNESS(t_words) { flow<Words>(); }
HARNESS(t_maybe) { flow<Maybe>(); }
HARNESS(t_huge) { flow<Huge>(); }
HARNESS(t_shared_ptr) { flow<std::shared_ptr<int>>(); }
HARNESS(t_pair) { flow<std::pair<std::string, int>>(); }
