#define CHECK_VALUES
#define CHECK_EVALS
#include "common/odd.inc"
HARNESS(p_words) { passed_on<Words>(); }
HARNESS(p_maybe) { passed_on<Maybe>(); }
HARNESS(p_huge) { passed_on<Huge>(); }
HARNESS(p_shared_ptr) { passed_on<std::shared_ptr<int>>(); }
HARNESS(p_pair) { passed_on<std::pair<std::string, int>>(); }
