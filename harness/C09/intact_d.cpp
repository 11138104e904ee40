#include "common/intact.inc"
HARNESS(i_shared_ptr) { intact<std::shared_ptr<int>>(); }
HARNESS(i_pair) { intact<Pair>(); }
